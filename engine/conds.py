"""Path conditions: atoms over terms, decided by bounds and by the facts already
in force, otherwise interned as BDD variables.

atoms
  ('z', m, q)    the residue of q modulo m is zero        (m prime: q free of units)
  ('ez', q)      the integer q is zero
  ('ge', q)      the integer q is >= 0
  ('sq', m, q)   q is zero or a quadratic residue modulo the odd prime m
  ('odd', m, q)  the canonical residue of q modulo m is odd
  ('bit', gid)   the 0/1 generator is one
  ('b', name..)  free boolean
"""
from fractions import Fraction
from . import terms as T
from .terms import Poly, P, ZERO, ONE
from .bdd import Mgr, Bdd
from .values import Unsupported


class Facts:
    __slots__ = ('ge', 'ez', 'ne', 'z', 'nz', 'sq', 'nsq', 'pos', 'neg')

    def __init__(self):
        self.ge, self.ez, self.ne = [], [], []
        self.z, self.nz, self.sq, self.nsq = [], [], [], []
        self.pos, self.neg = [], []


class Conds:
    def __init__(self):
        self.mgr = Mgr()
        self.T, self.F = self.mgr.T, self.mgr.F
        self.fcache = {}
        self.zcache = {}
        self.ind = {}           # indicator generator -> condition
        self.mgr.residues = self.residues
        self.mgr.reductions = self.reductions
        self.rcache = {}

    # ------------------------------------------------------------ facts
    def facts(self, pc):
        r = self.fcache.get(pc.id)
        if r is not None:
            return r
        f = Facts()
        for v in pc.support():
            var = self.mgr.mk(v, self.F, self.T)
            a = self.mgr.atoms[v]
            k = a[0]
            if pc.implies(var):
                f.pos.append(a)
                if k == 'ge':
                    f.ge.append(a[1])
                elif k == 'ez':
                    f.ez.append(a[1])
                    f.ge.append(a[1])
                    f.ge.append(-a[1])
                elif k == 'z':
                    f.z.append((a[1], a[2]))
                elif k == 'sq':
                    f.sq.append((a[1], a[2]))
                elif k == 'bit':
                    f.ez.append(P(T.C.gens[a[1]]) - 1)
            elif pc.implies(~var):
                f.neg.append(a)
                if k == 'ge':
                    f.ge.append(-a[1] - 1)
                elif k == 'ez':
                    f.ne.append(a[1])
                elif k == 'z':
                    f.nz.append((a[1], a[2]))
                    g = a[2].single_gen()
                    if g is not None and T.in_range(a[2], a[1]):
                        f.ge.append(a[2] - 1)        # a canonical residue that is not zero
                elif k == 'sq':
                    f.nsq.append((a[1], a[2]))
                elif k == 'bit':
                    f.ez.append(P(T.C.gens[a[1]]))
        # ge & ge(-.) give equalities
        s = set(f.ge)
        for q in list(f.ge):
            if -q in s and q not in f.ez and -q not in f.ez:
                f.ez.append(q)
        # ne sharpening
        for q in f.ne:
            for w in (q, -q):
                if w in s or T.nonneg(w):
                    f.ge.append(w - 1)
        self.fcache[pc.id] = f
        return f

    def lower(self, p, pc):
        """lower bound of p using the facts of pc"""
        l = T.lower(p)
        if pc is None or pc is self.T:
            return l
        f = self.facts(pc)
        if not f.ge:
            return l
        best = l
        gp = p.gens()
        for F in f.ge:
            if not (F.gens() & gp) and best is not None:
                continue
            for m, c in F.d.items():
                if not m:
                    continue
                if m in p.d:
                    q = Fraction(p.d[m]) / Fraction(c)
                    if q > 0:
                        r = T.lower(p - F.scale(q))
                        if r is not None and (best is None or r > best):
                            best = r
            # facts reached through generator bounds
        if best is None or best <= -1:
            for F in f.ge:
                for q in (1, Fraction(1, 32), Fraction(1, 64), Fraction(1, 8)):
                    r = self._lower_via(p, F.scale(q))
                    if r is not None and (best is None or r > best):
                        best = r
        if best is None or best <= -1:
            # two facts
            for i, F in enumerate(f.ge):
                for m, c in F.d.items():
                    if not m or m not in p.d:
                        continue
                    q = Fraction(p.d[m]) / Fraction(c)
                    if q <= 0:
                        continue
                    p2 = p - F.scale(q)
                    for j, G in enumerate(f.ge):
                        if j == i:
                            continue
                        for m2, c2 in G.d.items():
                            if not m2 or m2 not in p2.d:
                                continue
                            q2 = Fraction(p2.d[m2]) / Fraction(c2)
                            if q2 <= 0:
                                continue
                            r = T.lower(p2 - G.scale(q2))
                            if r is not None and (best is None or r > best):
                                best = r
        return best

    def _lower_via(self, p, F):
        best = None
        for m, c in p.d.items():
            if len(m) == 1 and m[0][1] == 1:
                g = T.C.gens[m[0][0]]
                for u in (g.ub if c < 0 else g.lb):
                    q = p - Poly({m: c}) + u.scale(c)
                    r = T.lower(q - F)
                    if r is not None and (best is None or r > best):
                        best = r
        return best

    # ------------------------------------------------------------ small generators
    def small(self, p, limit=7):
        """generators of p if each is 0/1 valued and few"""
        gs = sorted(p.gens())
        if len(gs) > limit:
            return None
        for g in gs:
            gg = T.C.gens[g]
            if gg.lo != 0 or gg.hi != 1:
                return None
        return gs

    def table(self, p, gs, pred):
        """truth table of pred(p) over the 0/1 generators gs"""
        if not gs:
            c = p.const()
            return self.mgr.const(pred(c))
        g = gs[0]
        b = self.bit(g)
        p0 = p.subs({g: ZERO})
        p1 = p.subs({g: ONE})
        if b is self.T:
            return self.table(p1, gs[1:], pred)
        if b is self.F:
            return self.table(p0, gs[1:], pred)
        return self.mgr.ite(b, self.table(p1, gs[1:], pred), self.table(p0, gs[1:], pred))

    def bit(self, gid):
        """the condition that the 0/1 generator is one"""
        g = T.C.gens[gid]
        if gid in self.ind:
            return self.ind[gid]
        if g.kind == 'mod' and g.args[1] == P(2):
            x = g.args[0]
            gx = x.single_gen()
            if gx is not None:
                if gx.kind == 'mod':
                    m = gx.args[1]
                    if T.is_prime_mod(m) and m != P(2):
                        return self.odd(gx.args[0], m)
                elif gx.id in T.C.gmod:
                    m = T.C.gmod[gx.id]
                    if T.is_prime_mod(m) and m != P(2):
                        return self.odd(x, m)
            else:
                # a polynomial already known to be its own residue
                for m in T.C.primes:
                    if m != P(2) and (m.gens() & x.gens()) and T.in_range(x, m):
                        return self.odd(T.inner(x, m), m)
        return self.mgr.var(('bit', gid))

    def odd(self, q, m):
        q = T.flat(q, m)
        c = q.const()
        if c is not None and type(c) is int:
            if m.const() is not None:
                return self.mgr.const(c % m.const() & 1)
            if T.in_range(q, m):
                return self.mgr.const(c & 1)
            if T.in_range(q + m, m):
                return self.mgr.const((c + 1) & 1)      # m is odd
        r = self.by_parity(q, m, self.odd)
        if r is not None:
            return r
        s, q2 = T.canon_sign(q, m)
        v = self.mgr.var(('odd', m, q2))
        for g in sorted(q.gens()):
            gg = T.C.gens[g]
            if gg.kind == 'root' and gg.args[1] == m:
                z = self.zero(gg.args[0], m)         # the root of zero is zero
                if z is self.T:
                    return self.odd(q.subs({g: ZERO}), m)
                if z is not self.F and q2.single_gen() is not None:
                    return self.mgr.ite(z, self.F, v if s > 0 else ~v)
        if s > 0:
            return v
        return self.mgr.ite(self.zero(q2, m), self.F, ~v)

    # ------------------------------------------------------------ integer conditions
    def ge(self, p, pc=None):
        """p >= 0"""
        p = P(p)
        c = p.const()
        if c is not None:
            return self.mgr.const(c >= 0)
        l = self.lower(p, pc)
        if l is not None and l > -1:
            return self.T
        u = self.lower(-p, pc)
        if u is not None and u > 0:
            return self.F
        gs = self.small(p)
        if gs is not None:
            return self.table(p, gs, lambda c: c >= 0)
        for g in p.gens():
            gg = T.C.gens[g]
            if gg.kind == 'pow' and self.is_half(gg.args[1], gg.args[2]) and T.is_prime_mod(gg.args[2]):
                # Euler's criterion: 0, 1 or p - 1
                b, m = gg.args[0], gg.args[2]
                return self.mgr.ite(self.zero(b, m), self.ge(p.subs({g: ZERO}), pc),
                                    self.mgr.ite(self.square(b, m), self.ge(p.subs({g: ONE}), pc),
                                                 self.ge(p.subs({g: m - 1}), pc)))
        for x, sg in ((p + 1, 1), (-p, -1)):
            # x >= 1 (or not x >= 1) for a canonical residue x
            g = x.single_gen()
            m = None if g is None else g.args[-1] if g.kind == 'mod' else T.C.gmod.get(g.id)
            if isinstance(m, Poly) and m.const() is None:
                z = self.zero(T.inner(x, m), m)
                return ~z if sg > 0 else z
        r = self.ge_floor(p, pc)
        if r is not None:
            return r
        for d, sg in ((p + 1, 1), (-p, -1)):
            # residues in order: x > y means x != y
            m = self.difference(d)
            if m is not None:
                z = self.zero(T.inner(d, m), m)
                gt = self.mgr.var(('ge', d - 1)) if T.content_sign(d) > 0 else ~self.mgr.var(('ge', -d - 1))
                return ~z & gt if sg > 0 else z | ~gt
        if T.content_sign(p) > 0:
            return self.mgr.var(('ge', p))
        return ~self.mgr.var(('ge', -p - 1))

    def ge_floor(self, p, pc):
        """c floor(a/k) + e >= 0 in terms of a; the number of bits of x >= 1 as x != 0"""
        gs = p.gens()
        if len(gs) != 1 or len(p.d) > 2:
            return None
        g = T.C.gens[next(iter(gs))]
        if g.kind not in ('fd', 'bits'):
            return None
        e = p.subs({g.id: ZERO}).const()
        c = (p - e).subs({g.id: ONE}).const() if e is not None else None
        if not c or p != P(g).scale(c) + e or type(e) is Fraction or type(c) is Fraction:
            return None
        if c < 0:
            # not: -c g >= e + 1
            r = self.ge_floor(-p - 1, pc)
            return None if r is None else ~r
        n = -(e // c)
        if g.kind == 'fd':
            a, k = g.args
            return self.ge(a - k * n, pc)
        if n == 1:
            return ~self.eq(g.args[0], ZERO, pc)
        return None

    def difference(self, d):
        """the modulus when d is the difference of two canonical residues"""
        if not d.d or () in d.d or len(d.d) > 8:
            return None
        x = Poly({k: v for k, v in d.d.items() if v > 0})
        m = self.common_mod(x, x - d) if x != d and x.d else None
        return m if m is not None and T.in_range(x, m) and T.in_range(x - d, m) else None

    def multiple(self, d, pc):
        """d = 0 for sums of residues: the sum is a multiple of the modulus, and its range leaves one"""
        for g in sorted(d.gens()):
            gg = T.C.gens[g]
            m = gg.args[-1] if gg.kind in ('mod', 'pow', 'inv') else T.C.gmod.get(g)
            if not isinstance(m, Poly) or m.const() is not None:
                continue

            def below(x):
                l = self.lower(x, pc)
                return l is not None and l > 0

            def least(x):
                l = self.lower(x, pc)
                return l is not None and l >= 0
            if least(d) and below(m.scale(2) - d):
                return self.zero(T.inner(d, m), m) & ~self.ge(d - m, pc)
            if least(d + m) and below(m - d):
                return self.zero(T.inner(d, m), m) & self.ge(d, pc)
        return None

    def common_mod(self, p, q):
        """a modulus for which both p and q are canonical residues"""
        cands = []
        for x in (p, q):
            for g in x.gens():
                gg = T.C.gens[g]
                if gg.kind in ('mod', 'pow', 'inv'):
                    cands.append(gg.args[-1])
                elif g in T.C.gmod:
                    cands.append(T.C.gmod[g])
        for m in cands:
            if all(T.in_range(x, m) or T.in_range(m - x, m) for x in (p, q)):
                return m
        return None

    def eq(self, p, q, pc=None):
        p, q = P(p), P(q)
        d = p - q
        c = d.const()
        if c is not None:
            return self.mgr.const(c == 0)
        gs = self.small(d)
        if gs is not None:
            return self.table(d, gs, lambda c: c == 0)
        l = self.lower(d, pc)
        if l is not None and l > 0:
            return self.F
        u = self.lower(-d, pc)
        if u is not None and u > 0:
            return self.F
        m = self.common_mod(p, q)
        if m is not None:
            r = self.zero(T.inner(p, m) - T.inner(q, m), m)
            # a value of 1..m that is 0 modulo m is m itself
            for a, b in ((p, q), (q, p)):
                if not T.in_range(a, m) and T.in_range(b, m):
                    r = r & ~self.zero(T.inner(b, m), m)
            return r
        x = Poly({k: v for k, v in d.d.items() if v > 0})
        y = x - d
        m = self.common_mod(x, y) if (x, y) != (p, q) else None
        if m is not None:
            return self.eq(x, y, pc)
        gs = d.gens()
        if len(d.d) == 1 and len(gs) > 1:
            # a product is zero when one of its factors is
            r = self.F
            for g in gs:
                r = r | self.eq(P(T.C.gens[g]), ZERO, pc)
            return r
        if l is not None and u is not None and l > -1 and u > -1:
            return self.T
        if T.content_sign(d) < 0:
            d = -d
        r = self.multiple(d, pc)
        if r is not None:
            return r
        return self.mgr.var(('ez', d))

    # ------------------------------------------------------------ residues
    def zero(self, q, m):
        """q = 0 modulo m"""
        q = T.flat(P(q), m)
        key = (q, m)
        r = self.zcache.get(key)
        if r is None:
            r = self._zero(q, m)
            self.zcache[key] = r
        return r

    def by_parity(self, q, m, f):
        """f(q, m) by the values of the parities that occur as coefficients"""
        if m == P(2):
            return None
        gs = [g for g in sorted(q.gens()) if T.C.gens[g].kind == 'mod' and T.C.gens[g].args[1] == P(2)]
        if not gs or len(gs) > 3:
            return None
        g = gs[0]
        b = self.bit(g)
        return self.mgr.ite(b, f(q.subs({g: ONE}), m) if b is not self.F else self.F,
                            f(q.subs({g: ZERO}), m) if b is not self.T else self.F)

    def _zero(self, q, m):
        c = q.const()
        prime = T.is_prime_mod(m)
        mc = m.const()
        if c is not None:
            if c == 0:
                return self.T
            if mc is not None:
                return self.mgr.const(c % mc == 0)
            info = T.mod_info(m)
            a = abs(c)
            if a == 1:
                lo = T.lower(m)
                if lo is not None and lo >= 2:
                    return self.F
            if info is not None:
                a = T.smooth_part(a, info)
                if a < info.get('min', 2):
                    return self.F
                return self.mgr.var(('z', m, P(a)))
            return self.mgr.var(('z', m, P(a)))
        if not prime:
            s, q = T.canon_sign(q, m)
            return self.mgr.var(('z', m, q))
        # rational coefficients
        den = 1
        for v in q.d.values():
            if type(v) is Fraction:
                den = den * v.denominator // T._gcd(den, v.denominator)
        if den > 1:
            q = T.flat(q.scale(den), m)
        r = self.by_parity(q, m, self.zero)
        if r is not None:
            return r
        # conditional symbols
        for g in sorted(q.gens()):
            gg = T.C.gens[g]
            if gg.kind == 'pow' and gg.args[2] == m and gg.args[1] == ZERO:
                return self.mgr.ite(self.zero(gg.args[0], m), self.zero(q.subs({g: ZERO}), m),
                                    self.zero(q.subs({g: ONE}), m))
            if gg.kind == 'pow' and gg.args[2] == m and self.is_half(gg.args[1], m):
                b = gg.args[0]
                z = self.zero(b, m)
                s = self.square(b, m)
                i = self.mgr.ite
                return i(z, self.zero(q.subs({g: ZERO}), m),
                         i(s, self.zero(q.subs({g: ONE}), m), self.zero(q.subs({g: P(-1)}), m)))
        # A (r^2 - c) for a root r of c: zero when c is a square, or A is zero
        for g in sorted(q.gens(), reverse=True):
            gg = T.C.gens[g]
            if gg.kind == 'root' and gg.args[1] == m and q.degree_in(g) == 2:
                A = Poly({tuple(e for e in mm if e[0] != g): cc for mm, cc in q.d.items() if (g, 2) in mm})
                if q == A * (P(gg) ** 2 - gg.args[0]):
                    return self.mgr.ite(self.square(gg.args[0], m), self.T, self.zero(A, m))
        # inverses: clear denominators
        for g in sorted(q.gens(), reverse=True):
            gg = T.C.gens[g]
            if gg.kind == 'inv':
                b = gg.args[0]
                zb = self.zero(b, m)
                z0 = self.zero(q.subs({g: ZERO}), m) if zb is not self.F else self.F
                if zb is self.T:
                    return z0
                k = q.degree_in(g)
                q1 = ZERO
                for mm, cc in q.d.items():
                    e = dict(mm).get(g, 0)
                    rest = tuple((a, x) for a, x in mm if a != g)
                    q1 = q1 + Poly({rest: cc}) * (b ** (k - e))
                q1 = self.strip(q1, b, m)
                return self.mgr.ite(zb, z0, self.zero(q1, m))
        # square roots
        for g in sorted(q.gens(), reverse=True):
            gg = T.C.gens[g]
            if gg.kind == 'root' and gg.args[1] == m and q.degree_in(g) >= 2:
                s = self.square(gg.args[0], m)
                r1 = self.zero(self.unroot(q, gg), m) if s is not self.F else self.F
                if s is self.T:
                    return r1
                ns = None
                if q.degree_in(g) == 2:
                    # A (r^2 - c) with c a non-square: zero only if A is
                    A = Poly({tuple(e for e in mm if e[0] != g): cc for mm, cc in q.d.items() if (g, 2) in mm})
                    if self.zero(q - A * (P(gg) ** 2 - gg.args[0]), m) is self.T:
                        ns = self.zero(A, m)
                if ns is None:
                    ns = self.mgr.var(('z', m, T.canon_sign(q, m)[1]))
                return self.mgr.ite(s, r1, ns)
        for g in sorted(q.gens()):
            gg = T.C.gens[g]
            if gg.kind == 'pow' and gg.args[2] == m and gg.args[1].scale(4) == m - 1 \
                    and self.square(gg.args[0], m) is not self.F:
                # fourth power residue symbol: 1 or -1 for squares
                b = gg.args[0]
                s = self.square(b, m)
                one = self.mgr.var(('z', m, P(gg) - 1))
                i = self.mgr.ite
                zb = self.zero(b, m)
                key = q - q.subs({g: ZERO})
                ns = self.F
                if s is not self.T:
                    if q in (P(gg) - 1, P(gg) + 1, 1 - P(gg)):
                        ns = self.F
                    else:
                        ns = self.mgr.var(('z', m, T.canon_sign(q, m)[1]))
                return i(zb, self.zero(q.subs({g: ZERO}), m),
                         i(s, i(one, self.zero(q.subs({g: ONE}), m), self.zero(q.subs({g: P(-1)}), m)), ns))
        # common monomial
        common = None
        for mm in q.d:
            dd = dict(mm)
            common = dd if common is None else {g: min(e, dd[g]) for g, e in common.items() if g in dd}
            if not common:
                break
        r = self.F
        if common:
            for g in sorted(common):
                r = r | self.zero_gen(T.C.gens[g], m)
            q = Poly({tuple((g, e - common.get(g, 0)) for g, e in mm if e - common.get(g, 0)): c
                      for mm, c in q.d.items()})
            return r | self.zero(q, m)
        # content
        if mc is None:
            cg = 0
            for v in q.d.values():
                cg = T._gcd(cg, abs(v))
            if cg > 1:
                q = q.scale(Fraction(1, cg))
                r = self.zero(P(cg), m)
                if r is self.T:
                    return r
        else:
            lead = q.d[max(q.d)]
            if lead != 1:
                q = T.reduce_mod(q.scale(pow(lead, -1, mc)), m)
        s, q = T.canon_sign(q, m)
        if len(q.d) == 1:
            mm, = q.d
            if len(mm) == 1 and mm[0][1] == 1:
                return r | self.zero_gen(T.C.gens[mm[0][0]], m)
        sp = T.split_squares(q, m)
        if sp is not None:
            return r | self.zero(sp[0], m) | self.zero(sp[1], m)
        if mc is None:
            sp = T.poly_sqrt(q)
            if sp is not None:
                return r | self.zero(sp, m)
        nz = T.C.nzpoly.get(m, ())
        if q in nz:
            return r
        for n in nz:
            q2 = T.exact_div(q, n, m)
            if q2 is not None:
                return r | self.zero(q2, m)
        return r | self.mgr.var(('z', m, q))

    def strip(self, q, b, m, k=1):
        """q without the factors b^k"""
        if not b.gens() or not q.d:
            return q
        q = T.flat(q, m)
        bk = T.flat(b ** k, m)
        while q.d:
            q2 = T.exact_div(q, bk, m)
            if q2 is None:
                return q
            q = q2
        return q

    def unroot(self, q, gg):
        """q with the squares of the root gg replaced by its radicand"""
        r = ZERO
        for mm, c in q.d.items():
            e = dict(mm).get(gg.id, 0)
            rest = tuple((a, x) for a, x in mm if a != gg.id)
            t = Poly({rest: c})
            if e:
                t = t * gg.args[0] ** (e // 2)
                if e % 2:
                    t = t * P(gg)
            r = r + t
        return r

    def declare_nonzero(self, q, m):
        """assume q != 0 modulo m"""
        b = self.zero(q, m)
        for v in b.support():
            a = self.mgr.atoms[v]
            if a[0] == 'z' and a[1] == m and b == self.mgr.var(a):
                g = a[2].single_gen()
                if g is not None:
                    T.C.nonzero.setdefault(m, set()).add(g.id)
                T.C.nzpoly.setdefault(m, set()).add(a[2])
                self.zcache.clear()
                return True
        return False

    def zero_gen(self, g, m):
        if g.kind == 'inv' and g.args[1] == m:
            return self.zero(g.args[0], m)
        if g.kind == 'pow' and g.args[2] == m:
            return self.zero(g.args[0], m)
        if g.id in T.C.nonzero.get(m, ()):
            return self.F
        if g.kind == 'root' and g.args[1] == m:
            s = self.square(g.args[0], m)
            z = self.zero(g.args[0], m)
            return z if s is self.T else self.mgr.ite(s, z, self.mgr.var(('z', m, P(g))))
        if g.lo is not None and g.lo > 0 and T.in_range(P(g), m):
            return self.F
        return self.mgr.var(('z', m, P(g)))

    def is_half(self, e, m):
        return e.scale(2) == m - 1

    def square(self, q, m):
        """q is zero or a quadratic residue modulo the odd prime m"""
        q = T.flat(P(q), m)
        c = q.const()
        mc = m.const()
        if c is not None:
            if mc is not None:
                c %= mc
                return self.mgr.const(c == 0 or pow(c, (mc - 1) // 2, mc) == 1)
            if c in (0, 1, 4, 9, 16):
                return self.T
            if c == -1:
                r = T.rem_const(m, 4)
                if r is not None:
                    return self.mgr.const(r == 1)
            if c in (2, -2):
                r = T.rem_const(m, 8)
                if r is not None:
                    return self.mgr.const(r in ((1, 7) if c == 2 else (1, 3)))
        if any(type(v) is Fraction for v in q.d.values()):
            den = 1
            for v in q.d.values():
                if type(v) is Fraction:
                    den = den * v.denominator // T._gcd(den, v.denominator)
            q = T.flat(q.scale(den * den), m)
        for g in sorted(q.gens(), reverse=True):
            gg = T.C.gens[g]
            if gg.kind == 'inv':
                b = gg.args[0]
                zb = self.zero(b, m)
                s0 = self.square(q.subs({g: ZERO}), m) if zb is not self.F else self.T
                k = q.degree_in(g)
                if k % 2:
                    k += 1
                q1 = ZERO
                for mm, cc in q.d.items():
                    e = dict(mm).get(g, 0)
                    rest = tuple((a, x) for a, x in mm if a != g)
                    q1 = q1 + Poly({rest: cc}) * (b ** (k - e))
                q1 = self.strip(q1, b, m, 2)
                return self.mgr.ite(zb, s0, self.square(q1, m))
        for g in sorted(q.gens(), reverse=True):
            gg = T.C.gens[g]
            if gg.kind == 'root' and gg.args[1] == m and q.degree_in(g) >= 2:
                s = self.square(gg.args[0], m)
                r1 = self.square(self.unroot(q, gg), m) if s is not self.F else self.F
                if s is self.T:
                    return r1
                return self.mgr.ite(s, r1, self.zero(q, m) | self.mgr.var(('sq', m, T.canon_sign(q, m)[1])))
        common = None
        for mm in q.d:
            dd = dict(mm)
            common = dd if common is None else {g: min(e, dd[g]) for g, e in common.items() if g in dd}
            if not common:
                break
        r = self.F
        if common:
            sub = {}
            for g, e in common.items():
                k = e - (e % 2)
                if k:
                    r = r | self.zero_gen(T.C.gens[g], m)
                    sub[g] = k
            if sub:
                q = Poly({tuple((g, e - sub.get(g, 0)) for g, e in mm if e - sub.get(g, 0)): c
                          for mm, c in q.d.items()})
                return r | self.square(q, m)
            # the symbol is multiplicative
            parts = [P(T.C.gens[g]) for g in sorted(common)]
            rest = Poly({tuple((g, e - common.get(g, 0)) for g, e in mm if e - common.get(g, 0)): c
                         for mm, c in q.d.items()})
            if rest != ONE:
                parts.append(rest)
            if len(parts) > 1:
                r = self.F
                ev = self.T
                for x in parts:
                    r = r | self.zero(x, m)
                    ev = ev.iff(self.square(x, m))
                return r | ev
        # square content
        if mc is None:
            cg = 0
            for v in q.d.values():
                cg = T._gcd(cg, abs(v))
            f = 2
            while f * f <= cg:
                if cg % (f * f) == 0:
                    q = q.scale(Fraction(1, f * f))
                    cg //= f * f
                    r = r | self.zero(P(f), m)
                else:
                    f += 1
        else:
            lead = q.d[max(q.d)]
            if lead != 1:
                # normalise the leading coefficient to 1 or to a fixed non-residue
                if pow(lead, (mc - 1) // 2, mc) == 1:
                    q = T.reduce_mod(q.scale(pow(lead, -1, mc)), m)
                else:
                    n = 2
                    while pow(n, (mc - 1) // 2, mc) == 1:
                        n += 1
                    q = T.reduce_mod(q.scale(pow(lead, -1, mc) * n), m)
        if mc is None and q.const() is None and all(type(v) is int for v in q.d.values()):
            sg, q2 = T.canon_sign(q, m)
            k = P(sg * max(cg, 1))
            if k != ONE:
                if cg > 1:
                    q2 = q2.scale(Fraction(1, cg))
                ev = self.square(k, m).iff(self.square(q2, m))
                return r | self.zero(q2, m) | self.zero(k, m) | ev
        if mc is None and T.poly_sqrt(q) is not None:
            return self.T
        if q.const() is not None:
            return r | self.square(q, m) if q.const() != c else r | self.mgr.var(('sq', m, q))
        z = self.zero(q, m)
        return r | z | self.mgr.var(('sq', m, q))

    def indicator(self, gid, cond):
        self.ind[gid] = cond

    # ------------------------------------------------------------ conditional residues
    def residues(self, alts):
        """one canonical residue equal to every alternative (g, v) under its guard, or None: recognises
        reductions written with comparisons (if x >= p then x - p, if x < 0 then x + p, ...)"""
        if len(alts) > 4 or any(len(v.d) > 12 for _, v in alts):
            return None
        key = tuple((g.id, v) for g, v in alts)
        if key in self.rcache:
            return self.rcache[key]
        self.rcache[key] = None
        for _, c in reversed(alts):
            if all(v == c or self.linear_zero(v - c, self.facts(g).ez) for g, v in alts):
                self.rcache[key] = c
                return c
        ms = []
        for _, v in alts:
            for g in v.gens():
                gg = T.C.gens[g]
                m = gg.args[-1] if gg.kind in ('mod', 'pow', 'inv') else T.C.gmod.get(g)
                if isinstance(m, Poly) and m not in ms and (m.const() is None or m.const() > 256):
                    ms.append(m)
        for m in ms[:2]:
            for _, c in alts:
                if not T.integral(c):
                    continue
                c = T.mod(c, m)
                if all(self._is_residue(v, c, m, g) for g, v in alts):
                    self.rcache[key] = c
                    return c
        return None

    def reductions(self, alts):
        """the alternatives with x joined to its residue x mod m wherever 0 <= x < m is known"""
        at = {v: i for i, (_, v) in enumerate(alts)}
        into = {}
        ms = {}
        for _, v in alts:
            g = v.single_gen()
            if g is not None and g.kind in ('mod', 'pow', 'inv') and isinstance(g.args[-1], Poly):
                ms[g.args[-1]] = 1
        for m in list(ms)[:2]:
            for i, (g, v) in enumerate(alts):
                if i in into or v.single_gen() is not None or len(v.d) > 40 or not T.integral(v):
                    continue
                c = T.mod(v, m)
                j = at.get(c)
                if j is not None and j != i and self._is_residue(v, c, m, g):
                    into[i] = j
        if not into:
            return alts
        gs = [g for g, _ in alts]
        for i, j in into.items():
            gs[j] = gs[j] | gs[i]
        return [(gs[i], v) for i, (_, v) in enumerate(alts) if i not in into]

    @staticmethod
    def linear_zero(d, eqs):
        """d is a rational combination of the polynomials eqs, all zero"""
        if not eqs or len(eqs) > 8:
            return False
        rows = []

        def red(x):
            for mm, e in rows:
                c = x.d.get(mm)
                if c:
                    x = x - e.scale(Fraction(c) / Fraction(e.d[mm]))
            return x
        for e in eqs:
            e = red(e)
            mm = next((k for k in e.d if k), None)
            if mm is not None:
                rows.append((mm, e))
        d = red(d)
        for _, e in rows:
            # polynomial multiples: solve for a generator
            if not d.d:
                break
            for mm, c in e.d.items():
                if len(mm) == 1 and mm[0][1] == 1 and sum(any(g == mm[0][0] for g, _ in k) for k in e.d) == 1:
                    d = d.subs({mm[0][0]: (Poly({mm: c}) - e).scale(Fraction(1) / Fraction(c))})
                    break
        return not d.d

    def _is_residue(self, v, c, m, g):
        if v == c:
            return True
        if not T.integral(v):
            return False
        d = self.zero(v - T.inner(c, m), m)
        if not (g & ~d).is_false():
            if len(g.support()) > 6:
                return False
            from . import theory
            if not theory.valid(self, d, g):
                return False
        for b in (v, m - 1 - v):
            if not T.nonneg(b):
                z = self.ge(b, g)
                if not (g & ~z).is_false():
                    return False
        return True

    # ------------------------------------------------------------ BDD helpers
    def simp(self, f, care):
        """simplify f using the care set (f unchanged on care)"""
        if f.v < 0 or care is self.T:
            return f
        if care is self.F:
            return self.F
        key = ('simp', f.id, care.id)
        r = self.mgr.cache.get(key)
        if r is not None:
            return r
        if care.v < f.v and care.v >= 0:
            r = self.simp(f, care.lo | care.hi)
        elif care.v == f.v:
            if care.lo is self.F:
                r = self.simp(f.hi, care.hi)
            elif care.hi is self.F:
                r = self.simp(f.lo, care.lo)
            else:
                r = self.mgr.mk(f.v, self.simp(f.lo, care.lo), self.simp(f.hi, care.hi))
        else:
            r = self.mgr.mk(f.v, self.simp(f.lo, care), self.simp(f.hi, care))
        self.mgr.cache[key] = r
        return r
