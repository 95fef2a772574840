"""Square test and square root of GF(p^2) (C11).

The square test is decided in the base field: x is a square in GF(p^2) exactly when its norm is one in GF(p).
The root is followed in the cyclic group of GF(p^2): values are monomials x^e i^f prod Y_r^g with
Y_r = 1 + x^r, written additively (`fm(e*X + f*I + g*Y_r)`), and the result is checked with the relations
    i^4 = 1,   x^((p^2-1)/2) = 1 (x a nonzero square),   Y_r^(p-1) = x^-r when x^(r (p+1)) = 1 and Y_r != 0
(Frobenius), and x^r = -1 where Y_r = 0."""
from fractions import Fraction
from .common import *
from . import primef as PF
from . import quad as QF
from . import groups as GR
from .primef import quiet, refuses, alts_of
from engine.loops import fm, collapse, linear01, annihilators

QE = QF.QE


def gx():
    return P(T.C.gen('base', ('x',)))


def gi():
    return P(T.C.gen('base', ('i',)))


def gy(r):
    return P(T.C.gen('onep', (r,)))


def vanishes(r):
    """the 0/1 generator 'Y_r = 0'"""
    return P(T.C.gen('onep0', (r,), 0, 1))


def coeff(m, g):
    """coefficient of the marker g in the (linear) exponent vector m"""
    gid = g.single_gen().id
    return m.subs({gid: ONE}) - m.subs({gid: ZERO})


def markers(m):
    return [T.C.gens[g] for g in m.gens() if T.C.gens[g].kind in ('base', 'onep')]


class Field2(GR.Formal):
    """the formal element x of GF(p^2): a nonzero square (zero=False) or zero"""

    def __init__(self, w, p, F, zero):
        self.w, self.p, self.zero = w, p, zero
        a = QF.mk(w, F, w.residue('x71', p), w.residue('x72', p))
        b = QF.mk(w, F, w.residue('x73', p), w.residue('x74', p))
        super().__init__(w.I, a, [(i,) for i, (x, y) in enumerate(zip(a.f, b.f)) if x != y])
        self.Fv = F
        w.take_panics()

    def mult(self, v, pc):
        if isinstance(v, Un):
            alts = [(g, self.mult(x, pc & g)) for g, x in v.alts if not (g & pc).is_false()]
            if not alts or any(m is None for _, m in alts):
                return None
            return collapse(self.I, mkun(alts, self.I.cd.mgr), pc)
        if isinstance(v, Agg) and v.tag == self.tpl.tag:
            s = self.split(v, pc)
            if s is not v:
                return self.mult(s, pc)
        m = super().mult(v, pc)
        if m is not None or not isinstance(v, Agg) or v.tag != self.tpl.tag:
            return m
        try:
            a, b = QF.comps(self.w, v)
        except Unsupported:
            return None
        unit = {(1, 0): 0, (0, 1): 1, (-1, 0): 2, (0, -1): 3}
        for (x, y), e in unit.items():
            if self.is_int(a, x) and self.is_int(b, y):
                return gi().scale(e)
        return None

    def is_nil(self, v):
        try:
            return all(self.is_int(a, 0) for a in QF.comps(self.w, v))
        except (Unsupported, AttributeError, TypeError):
            return False

    def is_int(self, a, n):
        return isinstance(a, Poly) and T.inner(a, self.p) == P(n)

    def is_formal(self, v, pc):
        return isinstance(v, Agg) and v.tag == self.tpl.tag and GR.Formal.mult(self, v, pc) is not None

    # -------------------------------------------------- zero and sums
    def zero_cond(self, m, pc):
        """the element m is zero"""
        cd = self.I.cd
        z = cd.F
        c = coeff(m, gx())
        if self.zero and c != ZERO:
            # 0^c
            if T.positive(c):
                return cd.T
            z = z | cd.ge(c - 1, pc)
        for g in markers(m):
            if g.kind == 'onep':
                z = z | (cd.eq(vanishes(g.args[0]), ONE) & ~cd.eq(coeff(m, P(g)), ZERO, pc))
        return z

    def total(self, m1, m2, pc):
        if self.zero:
            for a, b in ((m1, m2), (m2, m1)):
                if self.I.cd.valid(self.zero_cond(a, pc), pc) if hasattr(self.I.cd, 'valid') else \
                        theory.valid(self.I.cd, self.zero_cond(a, pc), pc):
                    return b
        r = m1 - m2
        i = coeff(r, gi()).const()
        if i is not None:
            r = r - gi().scale(int(i) - int(i) % 4)
        if any(g.kind == 'onep' for g in markers(r)):
            raise Unsupported('a sum of sums')
        if r == gi().scale(2):
            raise Unsupported('a sum that is always zero')
        return m2 + gy(r)

    def sums(self, sign):
        def h(I, fn, args, st):
            vs = [self.value(a, st) for a in args]
            ms = [self.mult(v, st.pc) for v in vs]
            if any(m is None for m in ms) or not any(self.is_formal(x, st.pc) for v in vs for _, x in alts_of(self.w, v)):
                return NotImplemented
            m2 = ms[1] if sign > 0 else ms[1] + gi().scale(2)
            return self.make(self.total(ms[0], m2, st.pc))
        return h

    def negation(self):
        def h(I, fn, args, st):
            v = self.value(args[0], st)
            if not self.is_formal(v, st.pc):
                return NotImplemented
            return self.make(self.mult(v, st.pc) + gi().scale(2))
        return h

    def zero_test(self):
        def h(I, fn, args, st):
            v = self.value(args[0], st)
            m = self.mult(v, st.pc)
            if m is None or not self.is_formal(v, st.pc):
                return NotImplemented
            return self.zero_cond(m, st.pc)
        return h

    def equality(self, negated=False):
        def h(I, fn, args, st):
            vs = [self.value(a, st) for a in args]
            ms = [self.mult(v, st.pc) for v in vs]
            if not any(self.is_formal(v, st.pc) for v in vs):
                return NotImplemented
            if any(m is None for m in ms):
                for m, v in ((ms[0], vs[1]), (ms[1], vs[0])):
                    if m is not None and self.is_nil(v):
                        r = self.zero_cond(m, st.pc)
                        return ~r if negated else r
                return NotImplemented
            if ms[0] == ms[1]:
                r = I.cd.T
            else:
                r = self.zero_cond(self.total(ms[0], ms[1] + gi().scale(2), st.pc), st.pc)
            return ~r if negated else r
        return h


from engine import theory  # noqa: E402


def classify_sums(ck):
    """functions computing a + b, a - b, -a, a == b, a != b, a is zero on GF(p^2), decided on the source"""
    prog = program()
    out = {}
    cands = []
    for f in prog.crate_fns():
        if not f.blocks or f.kind != 'item' or not 1 <= f.argc <= 2 or '{closure' in f.name:
            continue
        if any(prog.tn[base_ty(prog, t)[0]] != FP2E or prog.tn[t].startswith('&mut') for t in f.locals[1:f.argc + 1]):
            continue
        rt = prog.types[f.locals[0]]
        if rt['k'] == 'bool' or prog.tn[f.locals[0]] == FP2E:
            cands.append(f)
    # discard wrong candidates on concrete operands
    pc = 10007
    w = World()
    T.C.primes[P(pc)] = {'odd': True, 'min': pc}
    F = QF.mkq(w, P(pc))
    A, B, Z = (123, 4567), (89, 1011), (0, 0)
    tests = {1: [(A,), (Z,)], 2: [(A, B), (A, A), (Z, B)]}
    kinds = {1: {'neg': lambda x: tuple(-a % pc for a in x), 'zero': lambda x: x == Z},
             2: {'add': lambda x, y: tuple((a + b) % pc for a, b in zip(x, y)),
                 'sub': lambda x, y: tuple((a - b) % pc for a, b in zip(x, y)),
                 'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y}}
    keep = []
    for f in cands:
        ks = set(kinds[f.argc])
        for vals in tests[f.argc]:
            if not ks:
                break
            try:
                v, st = GR.result(w, f, [QF.mk(w, F, P(a), P(b)) for a, b in vals], None)
                c = v.is_true() if isinstance(v, Bdd) else tuple(int(x.const()) for x in QF.comps(w, v))
                ks = {k for k in ks if kinds[f.argc][k](*vals) == c and type(kinds[f.argc][k](*vals)) is type(c)}
            except (Unsupported, TypeError, AttributeError, KeyError):
                ks = set()
            finally:
                w.take_panics()
                w.I.frames = []
        if ks:
            keep.append(f)
    for f in keep:
        rt = f.locals[0]
        w = World()
        try:
            p, F = QF.setup(w)
            xs = [(w.residue('a%d' % i, p), w.residue('b%d' % i, p)) for i in range(f.argc)]
            vals = [QF.mk(w, F, a, b) for a, b in xs]
            w.take_panics()
            v, st = GR.result(w, f, vals, None)
            if v is None:
                continue
            if prog.types[rt]['k'] == 'bool':
                if not isinstance(v, Bdd):
                    continue
                z = w.cd.T
                for k in (0, 1):
                    z = z & w.cd.zero(xs[0][k] - (xs[1][k] if f.argc == 2 else ZERO), p)
                if holds(w, v.iff(z), st.pc):
                    out[f.id] = 'eq' if f.argc == 2 else 'zero'
                elif holds(w, v.iff(~z), st.pc) and f.argc == 2:
                    out[f.id] = 'ne'
            elif prog.tn[rt] == FP2E:
                c = QF.comps(w, v)
                for what, s in (('add', 1), ('sub', -1)) if f.argc == 2 else (('neg', -1),):
                    want = [(xs[0][k] + xs[1][k].scale(s)) if f.argc == 2 else -xs[0][k] for k in (0, 1)]
                    if all(reduced(w, a, p, st.pc) and holds(w, w.cd.zero(a - b, p), st.pc)
                           for a, b in zip(c, want)) and QF.sameq(w, v, F, st):
                        out[f.id] = what
        except (Unsupported, KeyError, TypeError, T.TooBig, AttributeError):
            continue
    return out


def install(w, p, F, mults, ones, sums, zero):
    G = Field2(w, p, F, zero)
    for fid, (co, target) in mults.items():
        w.I.hooks[fid] = formal_only(G, G.contract(co, target))
    for f in ones:
        w.I.hooks[f.id] = G.constant(0, lambda args, st: G.value(args[0], st) == F)
    mk = {'add': lambda: G.sums(1), 'sub': lambda: G.sums(-1), 'neg': G.negation, 'zero': G.zero_test,
          'eq': G.equality, 'ne': lambda: G.equality(True)}
    for fid, k in sums.items():
        w.I.hooks[fid] = mk[k]()
    G.loops = GR.Loops(w.I)
    return G


def formal_only(G, h):
    """apply the contract only when some operand is formal; plain operands are computed"""
    def hook(I, fn, args, st):
        for a in args:
            v = G.value(a, st)
            if any(G.is_formal(x, st.pc) for _, x in alts_of(G.w, v)):
                return h(I, fn, args, st)
        return NotImplemented
    return hook


def exact(c, d):
    """integer s with c = s d, or None"""
    if c == ZERO:
        return 0
    k = next(iter(d.d))
    for mon, x in d.d.items():
        if mon:
            k = mon
    if k not in c.d:
        return None
    s = Fraction(c.d[k]) / Fraction(d.d[k])
    if s.denominator != 1 or c != d.scale(int(s)):
        return None
    return int(s)


def is_root(w, G, m, p, pc):
    """m^2 = x whenever pc, x a nonzero square"""
    cd = w.cd
    m = linear01(m)
    # split on the conditions mixed into the exponent
    ms = {g.id for g in markers(m)}
    for g in sorted(T.deepgens(m)):
        gg = T.C.gens[g]
        if gg.kind in ('ind', 'onep0') and gg.lo == 0 and gg.hi == 1 and g in m.gens():
            c = gg.args[0] if gg.kind == 'ind' else cd.eq(P(gg), ONE)
            return all(is_root(w, G, m.subs({g: v}), p, q) for v, q in ((ONE, pc & c), (ZERO, pc & ~c))
                       if not q.is_false())
    d = m.scale(2) - gx()
    for g in markers(m):
        if g.kind != 'onep':
            continue
        f = coeff(d, P(g))
        r = g.args[0]
        if f == ZERO:
            continue
        if not theory.valid(cd, ~cd.eq(vanishes(r), ONE), pc):
            return False                 # a power of something that may be zero
        if exact(coeff(r, gx()) * (p + 1), (p * p - 1).scale(Fraction(1, 2))) is None or coeff(r, gi()) != ZERO:
            return False
        s = exact(f, p - 1)
        if s is None:
            return False
        d = d - ((p - 1) * P(g) + r).scale(s)
    rel = [ZERO]
    for g in T.C.gens:
        if g.kind == 'onep0' and theory.valid(cd, cd.eq(P(g), ONE), pc):
            rel += [(g.args[0] - gi().scale(2)).scale(t) for t in (1, -1, 2, -2, 3, -3)]
    for q in rel:
        e = d - q
        i, x = coeff(e, gi()).const(), coeff(e, gx())
        if i is None or int(i) % 4 or exact(x, (p * p - 1).scale(Fraction(1, 2))) is None:
            continue
        if e - gi().scale(int(i)) - gx() * x == ZERO:
            return True
    return False


def c11(ck):
    """Square test by equivalence with the norm being a square of the base field; square root by formal
    monomials of the cyclic group with the relations that hold for squares."""
    w = World()
    with ck.case('is_square', w):
        p, F = QF.setup(w)
        a, b = w.residue('a', p), w.residue('b', p)
        e = QF.mk(w, F, a, b)
        v = call(w, '<%s as redox_ecc::field::Sqrt>::is_square' % QE, e)
        ck.need(isinstance(v, Bdd), 'returns', w.I.panics)
        n = a * a + b * b
        want = w.cd.zero(n, p) | w.cd.square(n, p)
        ck.ob(holds(w, v.iff(want), w.st.pc), 'true exactly when the norm is a square', 'got %r want %r' % (v, want))
        quiet(ck, w)
    mults, fns = GR.classify_quad(ck)
    ones = GR.quad_ones(ck)
    sums = classify_sums(ck)
    ck.floor('multiplicative operations of GF(p^2)', len(mults), 6)
    ck.floor('additive operations and comparisons of GF(p^2)', len(sums), 8)
    name = '<%s as redox_ecc::field::Sqrt>::sqrt' % QE
    for zero in (False, True):
        w = World()
        with ck.case('sqrt of ' + ('zero' if zero else 'a nonzero square'), w):
            p, F = QF.setup(w)
            G = install(w, p, F, mults, ones, sums, zero)
            v = call(w, name, G.make(gx()))
            ck.need(v is not None, 'returns', '%r %s' % (w.I.panics, G.loops.notes))
            got = []
            ok = True
            for g, x in alts_of(w, v):
                if (g & w.st.pc).is_false():
                    continue
                m = G.mult(x, w.st.pc & g)
                if m is None:
                    raise Unsupported('a root that is not followed: %r' % (x,))
                got.append((g, m))
                if zero:
                    ok = ok and holds(w, G.zero_cond(m, w.st.pc & g), w.st.pc & g)
                else:
                    ok = ok and is_root(w, G, m, p, w.st.pc & g)
            ck.ob(ok, 'the root squares back', '; '.join('%r when %r' % (m, g) for g, m in got)[:900])
            quiet(ck, w)
            ck.count('loops summarised', G.loops.count)
    for res, lab in (((1, 4), 'p = 1 mod 4'), (None, 'p = 2')):
        w = World()
        with ck.case('sqrt, ' + lab, w):
            if res:
                p = w.prime('p', 5, True, res)
            else:
                p = P(2)
                T.C.primes[p] = {'odd': False, 'min': 2}
            F = QF.mkq(w, p)
            a, b = (w.residue('a', p), w.residue('b', p)) if res else (ONE, ZERO)
            e = QF.mk(w, F, a, b)
            w.take_panics()
            pre = w.st.pc & ~(w.cd.zero(a, p) & w.cd.zero(b, p))
            v = call(w, name, e)
            refuses(ck, w, v, pre, 'refused')
    ck.assume('an element of GF(p^2) is a square exactly when its norm is a square in GF(p) (the norm is onto)')
    ck.rule('is_square <=> norm is zero or a square; sqrt(x)^2 = x as formal monomials for every nonzero square, '
            'sqrt(0) = 0; p = 1 mod 4 and p = 2 are refused')
