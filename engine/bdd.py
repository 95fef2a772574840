"""Small reduced ordered BDDs; variables are interned atoms."""


class Mgr:
    def __init__(self):
        self.atoms = []          # var index -> atom
        self.atom_ix = {}
        self.nodes = {}
        self.cache = {}
        self.T = Bdd(self, -1, None, None, 1)
        self.F = Bdd(self, -1, None, None, 0)
        self.n = 2
        self.residues = None
        self.reductions = None

    def mk(self, v, lo, hi):
        if lo is hi:
            return lo
        k = (v, lo.id, hi.id)
        r = self.nodes.get(k)
        if r is None:
            r = Bdd(self, v, lo, hi, self.n)
            self.n += 1
            self.nodes[k] = r
        return r

    def var(self, atom):
        i = self.atom_ix.get(atom)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(atom)
            self.atom_ix[atom] = i
        return self.mk(i, self.F, self.T)

    def ite(self, f, g, h):
        T, F = self.T, self.F
        if f is T:
            return g
        if f is F:
            return h
        if g is h:
            return g
        if g is T and h is F:
            return f
        k = (f.id, g.id, h.id)
        r = self.cache.get(k)
        if r is not None:
            return r
        v = min(x.v for x in (f, g, h) if x.v >= 0)
        f0, f1 = (f.lo, f.hi) if f.v == v else (f, f)
        g0, g1 = (g.lo, g.hi) if g.v == v else (g, g)
        h0, h1 = (h.lo, h.hi) if h.v == v else (h, h)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.cache[k] = r
        return r

    def const(self, b):
        return self.T if b else self.F


class Bdd:
    __slots__ = ('m', 'v', 'lo', 'hi', 'id')

    def __init__(self, m, v, lo, hi, id):
        self.m, self.v, self.lo, self.hi, self.id = m, v, lo, hi, id

    def __and__(self, o):
        return self.m.ite(self, o, self.m.F)

    def __or__(self, o):
        return self.m.ite(self, self.m.T, o)

    def __invert__(self):
        return self.m.ite(self, self.m.F, self.m.T)

    def __xor__(self, o):
        return self.m.ite(self, ~o, o)

    def iff(self, o):
        return self.m.ite(self, o, ~o)

    def implies(self, o):
        return (self & ~o).is_false()

    def is_true(self):
        return self is self.m.T

    def is_false(self):
        return self is self.m.F

    def const(self):
        return True if self is self.m.T else False if self is self.m.F else None

    def support(self):
        seen, out = set(), set()
        st = [self]
        while st:
            n = st.pop()
            if n.v < 0 or n.id in seen:
                continue
            seen.add(n.id)
            out.add(n.v)
            st.append(n.lo)
            st.append(n.hi)
        return sorted(out)

    def cubes(self, limit=100000):
        """yield partial assignments {var: bool} covering the function"""
        T, F = self.m.T, self.m.F
        st = [(self, ())]
        while st:
            n, asg = st.pop()
            if n is F:
                continue
            if n is T:
                yield dict(asg)
                continue
            st.append((n.lo, asg + ((n.v, False),)))
            st.append((n.hi, asg + ((n.v, True),)))

    def restrict(self, asg):
        """cofactor by {var: bool}"""
        memo = {}

        def go(n):
            if n.v < 0:
                return n
            r = memo.get(n.id)
            if r is None:
                if n.v in asg:
                    r = go(n.hi if asg[n.v] else n.lo)
                else:
                    r = self.m.mk(n.v, go(n.lo), go(n.hi))
                memo[n.id] = r
            return r
        return go(self)

    def __repr__(self):
        c = self.const()
        if c is not None:
            return str(c)
        out = []
        for i, cu in enumerate(self.cubes()):
            if i > 6:
                out.append('...')
                break
            out.append(' & '.join(('' if b else '!') + show_atom(self.m.atoms[v]) for v, b in sorted(cu.items())))
        return ' | '.join('(%s)' % s for s in out)


def show_atom(a):
    return '%s[%s]' % (a[0], ', '.join(str(x) for x in a[1:]))
