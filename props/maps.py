"""Maps from field elements to curves (C31-C35)."""
from .common import *
from . import primef as PF
from . import curves as CV
from . import contracts as K
from .primef import quiet, alts_of
from .isogenies import nonzero
from .curves import cmeth, CURVE, POINT, coord_alts, on_same_curve

MAP = 'redox_ecc::%s as redox_ecc::ellipticcurve::MapToCurve>::map'


def inv(q, m):
    return T._inv_poly(T.flat(P(q), m), m)


class Spec:
    """a map: constructor conditions and candidates, from RFC 9380 section 6"""

    def __init__(self, w, ty, fam, p=None):
        self.w, self.ty, self.fam = w, ty, fam
        self.p = p if p is not None else w.prime('p', 5)
        self.z = w.residue('z', self.p)
        self.C = self.curve()
        self.F = call(w, cmeth(fam, 'get_field'), self.C.E)
        K.square_roots(w, self.p)
        w.take_panics()

    def curve(self):
        return CV.Curve(self.w, self.fam, p=self.p)

    def build(self):
        """the constructor; returns (value, condition that it panics)"""
        w = self.w
        v = call(w, 'redox_ecc::%s::new' % self.ty, self.C.E, PF.mk_elt(w, self.F, self.z))
        bad = w.cd.F
        for q in w.take_panics():
            bad = bad | q.guard
        return v, bad

    def map(self, m, u):
        w = self.w
        return call(w, '<' + MAP % self.ty, m, PF.mk_elt(w, self.F, u))


class Sswu(Spec):
    def __init__(self, w, p=None):
        super().__init__(w, 'weierstrass::sswu::SSWU', 'weierstrass', p)
        self.a, self.b = self.C.prm['a'], self.C.prm['b']

    def g(self, x):
        return T.flat(x * x * x + self.a * x + self.b, self.p)

    def conditions(self):
        cd, p, z = self.w.cd, self.p, self.z
        x = self.b * inv(z, p) * inv(self.a, p)
        return (~cd.zero(self.a, p) & ~cd.zero(self.b, p) & ~cd.square(z, p) & ~cd.zero(z + 1, p)
                & cd.square(self.g(x), p))

    def candidates(self, u):
        """[(guard, x)] and lemmas"""
        w, cd, p, z = self.w, self.w.cd, self.p, self.z
        t = T.flat(z * u * u, p)
        exc = cd.zero(t * (1 + t), p)
        k = -self.b * inv(self.a, p)
        xe = self.b * inv(z, p) * inv(self.a, p)
        x1 = T.flat(k * (1 + inv(z, p) * inv(u, p) ** 2 * inv(1 + t, p)), p)
        x2 = T.flat(t * x1, p)
        s1 = cd.square(self.g(x1), p)
        # g(x2) = (z u^2)^3 g(x1)
        lem = K.parity(w, [self.g(x2)], [], [z, self.g(x1)], [z, u, u, u], p, w.st.pc & ~exc)
        return ([(exc, xe), (~exc & s1, x1), (~exc & ~s1, x2)], lem, exc)

    def sign(self, u, first, y):
        """the sign condition on y"""
        return self.w.cd.odd(y, self.p).iff(self.w.cd.odd(u, self.p))


def in_spec(ck, w, S, v, u, cands, firsts, scale=None):
    """the value v is the point of the specification"""
    C, p = S.C, S.p
    ck.need(v is not None, 'returns', w.I.panics)
    okx = okc = okz = oks = w.cd.F
    for g, c in coord_alts(w, C.fam, v, w.st.pc):
        if not all(reduced(w, x, p, w.st.pc & g) for x in c.values()):
            continue
        cc = {k: T.inner(x, p) for k, x in c.items()}
        on = w.cd.T
        for q in C.equation(cc):
            on = on & w.cd.zero(q, p)
        okc = okc | (g & on)
        okz = okz | (g & ~w.cd.zero(cc['z'], p))
        for gs, x in cands:
            gg = g & gs
            if (gg & w.st.pc).is_false():
                continue
            okx = okx | (gg & w.cd.zero(cc['x'] - x * cc['z'], p))
        y = T.flat(cc['y'] * inv(cc['z'], p), p)
        if scale is not None:
            y = T.flat(y * inv(scale, p), p)
        oks = oks | (g & (w.cd.zero(y, p) | S.sign(u, firsts, y)))
    ck.ob(holds(w, okz, w.st.pc), 'a finite point')
    ck.ob(holds(w, okx, w.st.pc), 'x is the prescribed candidate', 'got %s' % [str(c['x'])[:200] for _, c in coord_alts(w, C.fam, v, w.st.pc)])
    ck.ob(holds(w, okc, w.st.pc), 'on the curve')
    ck.ob(holds(w, oks, w.st.pc), 'y has the prescribed sign')
    ck.ob(on_same_curve(w, C, v, w.st), 'on the given curve')


def run_map(ck, S, u):
    w = S.w
    m, bad = S.build()
    ck.need(m is not None, 'the constructor returns')
    want = S.conditions()
    w.st.pc = w.st.pc & want
    cands, lem, exc = S.candidates(u)
    ck.need(lem is not None, 'product of the candidate values is a square')
    w.st.pc = w.st.pc & (exc | lem)
    v = S.map(m, u)
    quiet(ck, w, under=(exc | lem) & want)
    return v, cands


def c31(ck):
    """SSWU evaluated on a symbolic curve, z and u; square tests and roots by their contracts (C05)."""
    w = World()
    with ck.case('simplified SWU', w):
        S = Sswu(w)
        u = w.residue('u', S.p)
        v, cands = run_map(ck, S, u)
        in_spec(ck, w, S, v, u, cands, None)
    ck.rule('x is the first candidate with a square curve value, y the root with the sign of u, for every u')


class Svdw(Spec):
    def __init__(self, w, p=None):
        super().__init__(w, 'weierstrass::svdw::SVDW', 'weierstrass', p)
        self.a, self.b = self.C.prm['a'], self.C.prm['b']

    def curve(self):
        # every curve has such coefficients: gz is the value of the curve polynomial at z
        a, self.gz = self.w.residue('a', self.p), self.w.residue('gz', self.p)
        b = T.mod(self.gz - self.z ** 3 - a * self.z, self.p)
        return CV.Curve(self.w, self.fam, p=self.p, a=a, b=b)

    g = Sswu.g
    sign = Sswu.sign

    def conditions(self):
        cd, p, z = self.w.cd, self.p, self.z
        gz, gh = self.g(z), self.g(-z * inv(P(2), p))
        d = z * z * 3 + self.a * 4
        return (~cd.zero(gz, p) & ~cd.zero(d, p) & cd.square(-d * inv(gz * 4, p), p)
                & (cd.square(gz, p) | cd.square(gh, p)))

    def candidates(self, u):
        w, cd, p, z = self.w, self.w.cd, self.p, self.z
        gz = self.g(z)
        d = T.flat(z * z * 3 + self.a * 4, p)
        # the root of -g(z)(3 z^2 + 4 a) with sign +1
        r = T.root(T.flat(-gz * d, p), p)
        odd = cd.odd(r, p)
        t = u * u * gz
        t1, t2 = T.flat(1 - t, p), T.flat(1 + t, p)
        exc = cd.zero(t1 * t2, p)
        h = -z * inv(P(2), p)
        out = []
        lem = w.cd.T
        x3e = z
        for gs, c3 in ((~odd, r), (odd, -r)):
            k = T.flat(u * c3 * inv(t2, p), p)
            x1, x2 = T.flat(h - k, p), T.flat(h + k, p)
            x3 = T.flat(z - gz * 4 * inv(d, p) * t2 ** 2 * inv(t1, p) ** 2, p)
            s1, s2 = cd.square(self.g(x1), p), cd.square(self.g(x2), p)
            out += [(gs & ~exc & s1, x1), (gs & ~exc & ~s1 & s2, x2), (gs & ~exc & ~s1 & ~s2, x3)]
            # d^3 (1 - t)^6 g(x3) = -64 g(z) (1 + t)^6 g(x1) g(x2)
            l = K.parity(w, [self.g(x3), d], [d, t1, t1, t1], [-gz, self.g(x1), self.g(x2)], [P(8), t2, t2, t2], p,
                         w.st.pc & ~exc & gs)
            if l is None:
                return out, None, exc
            lem = lem & (l | ~gs)
        se = cd.square(self.g(h), p)
        out += [(exc & se, h), (exc & ~se, z)]
        return out, lem, exc


def c32(ck):
    """SvdW evaluated on a symbolic curve, z and u; square tests and roots by their contracts (C05)."""
    w = World()
    with ck.case('Shallue-van de Woestijne', w):
        S = Svdw(w)
        u = w.residue('u', S.p)
        v, cands = run_map(ck, S, u)
        in_spec(ck, w, S, v, u, cands, None)
    ck.rule('x is the first candidate with a square curve value, y the root with the sign of u, for every u')


class Ell2(Spec):
    def __init__(self, w, p=None):
        super().__init__(w, 'montgomery::elligator2::Ell2', 'montgomery', p)
        self.a, self.b = self.C.prm['a'], self.C.prm['b']

    def conditions(self):
        cd, p = self.w.cd, self.p
        return ~cd.zero(self.a, p) & ~cd.zero(self.b, p) & ~cd.square(self.z, p)

    def candidates(self, u):
        """coordinates of the curve y^2 = x^3 + J x^2 + x/b^2, J = a/b, scaled by b"""
        w, cd, p = self.w, self.w.cd, self.p
        ib = inv(self.b, p)
        J = T.flat(self.a * ib, p)
        t = T.flat(self.z * u * u, p)
        exc = cd.zero(t + 1, p)
        out = []
        for gs, x1 in ((exc, -J), (~exc, T.flat(-J * inv(1 + t, p), p))):
            x2 = T.flat(-x1 - J, p)
            g1 = T.flat(x1 ** 3 + J * x1 * x1 + ib * ib * x1, p)
            s1 = cd.square(g1, p)
            out += [(gs & s1, T.flat(x1 * self.b, p)), (gs & ~s1, T.flat(x2 * self.b, p))]
        self.first = (exc & out[0][0]) | (~exc & out[2][0])
        return out, w.cd.T, exc

    def sign(self, u, first, y):
        return self.w.cd.odd(y, self.p).iff(self.first)


def c33(ck):
    """Elligator 2 on a symbolic Montgomery curve, z and u; square tests and roots by their contracts (C05)."""
    w = World()
    with ck.case('Elligator 2', w):
        S = Ell2(w)
        nonzero(w, S.b, S.p)
        u = w.residue('u', S.p)
        v, cands = run_map(ck, S, u)
        in_spec(ck, w, S, v, u, cands, None, scale=S.b)
    ck.rule('x is the first candidate with a square curve value, y odd for the first candidate and even for the second, for every u')


WIT = 'redox_ecc::verif_witness::'


class Composed:
    """a map that transfers the point of an inner map to another curve

    The transfer is an arbitrary one: a stub implementation of the trait whose methods are replaced, during the
    analysis, by a summary that records the argument and returns an unconstrained point of the target curve."""

    def __init__(self, w, inner, fam, ty, meth, same=True):
        self.w, self.inner, self.p = w, inner, inner.p
        self.ty = ty
        p = self.p
        self.C = CV.Curve(w, fam, p=p, tag='1')
        self.E = self.C.E if same else CV.Curve(w, fam, p=p, tag='2')
        self.Ce = self.C if same else self.E
        self.E = self.Ce.E
        names = CV.NAMES[fam]
        self.oc = {k: w.residue('o' + k, p) for k in names}
        self.out = CV.mk_point(w, self.C, self.oc)
        if fam == 'weierstrass':
            self.stub = call(w, WIT + 'any_isogeny', inner.C.E, self.C.E, self.out)
        else:
            ic = {k: w.residue('i' + k, p) for k in CV.NAMES[inner.C.fam]}
            self.stub = call(w, WIT + 'any_map', self.C.E, inner.C.E, self.out, CV.mk_point(w, inner.C, ic))
        self.calls = []

        def push(I, fn, args, st):
            self.calls.append((st.pc, args[1]))
            return self.out
        l = [f for f in w.prog.crate_fns() if f.blocks and f.name.endswith('>::' + meth) and 'verif_witness::Any' in f.name
             and f.name.startswith('<redox_ecc::verif_witness::Any' + ('Isogeny' if fam == 'weierstrass' else 'Map'))]
        w.I.hooks[l[0].id] = push
        w.take_panics()

    def build(self):
        w = self.w
        v = call(w, 'redox_ecc::%s::new' % self.ty, self.E, PF.mk_elt(w, self.inner.F, self.inner.z), self.stub)
        bad = w.cd.F
        for q in w.take_panics():
            bad = bad | q.guard
        return v, bad

    def conditions(self):
        w, cd, p = self.w, self.w.cd, self.p
        eq = call(w, '<redox_ecc::%s as std::cmp::PartialEq>::eq' % CURVE(self.C.fam), self.C.E, self.E)
        c = self.inner.conditions() & eq
        if self.C.fam == 'weierstrass':
            c = c & (cd.zero(self.Ce.prm['a'], p) ^ cd.zero(self.Ce.prm['b'], p))
        return c


def composed(ck, S, scale=None):
    w = S.w
    m, bad = S.build()
    ck.need(m is not None, 'the constructor returns')
    want = S.conditions()
    w.st.pc = w.st.pc & want
    u = w.residue('u', S.p)
    cands, lem, exc = S.inner.candidates(u)
    ck.need(lem is not None, 'product of the candidate values is a square')
    w.st.pc = w.st.pc & (exc | lem)
    w.take_panics()
    v = call(w, '<' + MAP % S.ty, m, PF.mk_elt(w, S.inner.F, u))
    quiet(ck, w)
    ck.need(len(S.calls) >= 1, 'the transfer is applied')
    st0 = w.st.pc
    done = w.cd.F
    for g, arg in S.calls:
        w.st.pc = st0 & g
        done = done | g
        in_spec(ck, w, S.inner, arg, u, cands, None, scale)
        w.st.pc = st0
    ck.ob(holds(w, done, st0), 'the transfer is applied to the inner point in every case')
    ok = w.cd.F
    for g, c in coord_alts(w, S.C.fam, v, w.st.pc):
        e = g
        for k in S.oc:
            e = e & w.cd.zero(T.inner(c[k], S.p) - S.oc[k], S.p)
        ok = ok | e
    ck.ob(holds(w, ok, w.st.pc), 'the result is what the transfer returns')
    ck.ob(on_same_curve(w, S.C, v, w.st), 'on the given curve')


def c34(ck):
    """The composed maps with an arbitrary isogeny or rational map (stub with summarised methods)."""
    w = World()
    with ck.case('SSWU through an isogeny', w):
        composed(ck, Composed(w, Sswu(w), 'weierstrass', 'weierstrass::sswuab0::SSWUAB0', 'push'))
    w = World()
    with ck.case('Elligator 2 through a rational map', w):
        inner = Ell2(w)
        nonzero(w, inner.b, inner.p)
        composed(ck, Composed(w, inner, 'edwards', 'edwards::elligator2::Ell2', 'pull'), scale=inner.b)
    ck.rule('the transfer is applied to exactly the point the inner map is specified to return, and its result is returned')


def c35(ck):
    """The condition under which each constructor panics, as a function of all parameters, against the negated conditions
    of RFC 9380."""
    def one(key, mk):
        w = World()
        with ck.case(key, w):
            S = mk(w)
            pc = w.st.pc
            m, bad = S.build()
            ck.need(m is not None, 'some parameters are accepted')
            w.st.pc = pc
            want = S.conditions()
            w.take_panics()
            ck.ob(holds(w, ~bad, pc & want), 'accepts parameters that meet the conditions', bad & want)
            ck.ob(holds(w, bad, pc & ~want), 'refuses all others', ~bad & ~want)
    one('simplified SWU', Sswu)
    one('Shallue-van de Woestijne', Svdw)
    one('Elligator 2', Ell2)
    one('SSWU through an isogeny', lambda w: Composed(w, Sswu(w), 'weierstrass', 'weierstrass::sswuab0::SSWUAB0', 'push', same=False))
    one('Elligator 2 through a rational map',
        lambda w: Composed(w, Ell2(w), 'edwards', 'edwards::elligator2::Ell2', 'pull', same=False))
    ck.rule('the panic guard of the constructor is the negation of the conditions')
