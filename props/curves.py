"""Curves: membership, group law, identity, equality, normalisation, parameters (C20-C27, C40)."""
from .common import *
from . import primef as PF
from .primef import quiet, refuses, eqmod, alts_of, simp

FAMS = {'weierstrass': ('a', 'b'), 'montgomery': ('a', 'b', 's'), 'edwards': ('a', 'd')}
NAMES = {'weierstrass': 'xyz', 'montgomery': 'xyz', 'edwards': 'xytz'}


def ty(fam, what):
    return '%s::%s' % (fam, what)


def POINT(fam):
    return fam + '::point::Point'


def CURVE(fam):
    return fam + '::curve::Curve'


def cmeth(fam, m, trait='ellipticcurve::EllipticCurve'):
    return '<redox_ecc::%s as redox_ecc::%s>::%s' % (CURVE(fam), trait, m)


def pmeth(fam, m, trait='ellipticcurve::EcPoint<%s>'):
    t = trait % ('redox_ecc::%s::scalar::Scalar' % fam) if '%s' in trait else trait
    return '<redox_ecc::%s as redox_ecc::%s>::%s' % (POINT(fam), t, m)


class Curve:
    """a symbolic curve: w, fam, p, prm (name -> Poly), E (the value)"""

    def __init__(self, w, fam, p=None, order=None, tag='', **fixed):
        self.w, self.fam = w, fam
        self.p = p if p is not None else w.prime('p' + tag, 5)
        self.prm = {}
        pt = tn(w, ty(fam, 'curve::Params'))
        fs = []
        for name, ft in w.prog.types[pt]['v'][0]['f']:
            if name == 'name':
                fs.append(Str('curve'))
                continue
            if name in fixed and fixed[name] is not None:
                v = P(fixed[name])
            elif name == 'p':
                v = self.p
            elif name in ('r', 'h'):
                v = order if name == 'r' and order is not None else T.sym(name + tag, 1)
            else:
                v = w.residue(name + tag, self.p)
            self.prm[name] = v
            c = v.const()
            fs.append(Str(str(c)) if c is not None else mkstr((('num', name + tag, 10, v),)))
        self.params = Agg(pt, fs)
        self.E = w.run('<redox_ecc::%s as std::convert::From<&redox_ecc::%s>>::from' % (
            CURVE(fam), ty(fam, 'curve::Params')), [w.ref(self.params)])
        if self.E is None:
            raise Unsupported('the curve constructor always panics: %r' % (w.I.panics,))

    def __getattr__(self, k):
        if k in ('prm',):
            raise AttributeError(k)
        return self.prm[k]

    def equation(self, c):
        """homogenised curve equation(s) at coordinates c"""
        g = self.prm
        X, Y, Z = (P(c[k]) for k in 'xyz')
        if self.fam == 'weierstrass':
            return [Y * Y * Z - X * X * X - g['a'] * X * Z * Z - g['b'] * Z * Z * Z]
        if self.fam == 'montgomery':
            return [g['b'] * Y * Y * Z - X * X * X - g['a'] * X * X * Z - X * Z * Z]
        t = P(c['t'])
        return [g['a'] * X * X + Y * Y - Z * Z - g['d'] * t * t, X * Y - t * Z]


def find(w, v, tid):
    """the sub-value of type tid"""
    l = []

    def go(x, n):
        if isinstance(x, Agg):
            if x.tag == tid:
                l.append(x)
                return
            for y in x.f:
                go(y, n + 1)
        elif isinstance(x, Un):
            raise Unsupported('several shapes')
    go(v, 0)
    if len(l) != 1:
        raise Unsupported('%d sub-values of type %s' % (len(l), w.prog.tn[tid]))
    return l[0]


def put_in(v, tid, x):
    if isinstance(v, Agg):
        if v.tag == tid:
            return x
        return Agg(v.tag, [put_in(y, tid, x) for y in v.f])
    return v


def proy(w, fam):
    return tn(w, ty(fam, 'point::ProyCoordinates'))


def mk_coords(w, fam, F, c):
    tid = proy(w, fam)
    fs = []
    for name, ft in w.prog.types[tid]['v'][0]['f']:
        fs.append(PF.mk_elt(w, F, c[name]))
    return Agg(tid, fs)


def field_value(w, E):
    return field_of_type(w, E, FP)


def mk_point(w, C, c):
    """the point with coordinates c of the curve C"""
    tpl = C.__dict__.get('tpl')
    if tpl is None:
        st = w.fork()
        tpl = C.__dict__['tpl'] = call(w, cmeth(C.fam, 'identity'), C.E, st=st)
        if tpl is None:
            raise Unsupported('the identity always panics: %r' % (w.I.panics,))
        w.st.mem = st.mem
    F = call(w, cmeth(C.fam, 'get_field'), C.E)
    return put_in(tpl, proy(w, C.fam), mk_coords(w, C.fam, F, c))


def coords(w, fam, pt):
    """coordinate name -> integer of a point value"""
    c = find(w, pt, proy(w, fam))
    names = [n for n, _ in w.prog.types[c.tag]['v'][0]['f']]
    return {n: num_of(w, x) for n, x in zip(names, c.f)}


def alt_points(w, v):
    """alternatives of a point value: [(guard, point)] with plain coordinates"""
    out = []
    for g, x in alts_of(w, v):
        cs = coords(w, None, x) if False else None
        out.append((g, x))
    return out


def coord_alts(w, fam, pt, pc):
    """[(guard, coords)] with every coordinate a plain term"""
    out = []
    for g, x in alts_of(w, pt):
        c = coords(w, fam, x)
        acc = [(g, {})]
        for n, v in c.items():
            nx = []
            for g0, d in acc:
                for g1, y in alts_of(w, v):
                    gg = g0 & g1
                    if (gg & pc).is_false():
                        continue
                    nx.append((gg, dict(d, **{n: y})))
            acc = nx
        out += acc
    return out


# ------------------------------------------------------------------ points on the curve
def affine(w, C, i, scale=True):
    """coordinates of a generic finite point, in an arbitrary projective scaling"""
    p = C.p
    x, y = w.residue('x%s' % i, p), w.residue('y%s' % i, p)
    s = ONE
    if scale:
        s = w.residue('s%s' % i, p)
        T.C.nonzero.setdefault(p, set()).add(s.single_gen().id)
    gx, gy = x.single_gen().id, y.single_gen().id
    g = C.prm
    rules = T.C.rules.setdefault(p, [])
    if C.fam == 'weierstrass':
        rules.append((gy, 2, x * x * x + g['a'] * x + g['b']))
    elif C.fam == 'montgomery':
        rules.append((gx, 3, g['b'] * y * y - g['a'] * x * x - x))
    else:
        den = 1 - g['d'] * x * x
        w.cd.declare_nonzero(den, p)
        rules.append((gy, 2, (1 - g['a'] * x * x) * T._inv_poly(T.flat(den, p), p)))
    T.C.modcache.clear()
    w.cd.zcache.clear()
    c = {'x': s * x, 'y': s * y, 'z': s}
    if C.fam == 'edwards':
        c['t'] = s * x * y
    return c


def identity(w, C, i, scale=True):
    s = ONE
    if scale:
        s = w.residue('s%s' % i, C.p)
        T.C.nonzero.setdefault(C.p, set()).add(s.single_gen().id)
    if C.fam == 'edwards':
        return {'x': ZERO, 'y': s, 'z': s, 't': ZERO}
    return {'x': ZERO, 'y': s, 'z': ZERO}


CLASSES = {'weierstrass': ('finite', 'infinity'), 'montgomery': ('finite', 'infinity'), 'edwards': ('finite',)}


def of_class(w, C, cl, i, scale=True):
    return affine(w, C, i, scale) if cl == 'finite' else identity(w, C, i, scale)


# ------------------------------------------------------------------ the group law (oracle)
def law(C, P1, P2):
    """complete addition formulas: W Renes-Costello-Batina Alg. 1, M Kim et al., E Hisil et al."""
    X1, Y1, Z1 = (P(P1[k]) for k in 'xyz')
    X2, Y2, Z2 = (P(P2[k]) for k in 'xyz')
    g = C.prm
    if C.fam == 'weierstrass':
        a, b3 = g['a'], g['b'].scale(3)
        xz, xy, yz = X1 * Z2 + X2 * Z1, X1 * Y2 + X2 * Y1, Y1 * Z2 + Y2 * Z1
        m, n = Y1 * Y2 - a * xz - b3 * Z1 * Z2, Y1 * Y2 + a * xz + b3 * Z1 * Z2
        k = a * X1 * X2 + b3 * xz - a * a * Z1 * Z2
        l = X1 * X2 * 3 + a * Z1 * Z2
        return {'x': xy * m - yz * k, 'y': l * k + n * m, 'z': yz * n + xy * l}
    if C.fam == 'montgomery':
        a, s = g['a'], g['s']
        R = Y1 * Z2 + Y2 * Z1
        t9 = X1 * Z2 + X2 * Z1
        Tt = t9 + a * X1 * X2 - Y1 * Y2
        V = a * t9 + X1 * X2 * 3 + Z1 * Z2
        S = s * (X1 * Y2 - X2 * Y1) + X1 * X2 - Z1 * Z2
        U = s * (X1 * Z2 - X2 * Z1) - X1 * Y2 - X2 * Y1
        W = s * (Y1 * Z2 - Y2 * Z1) + t9 + a * X1 * X2 + Y1 * Y2
        return {'x': R * S - Tt * U, 'y': Tt * W - V * S, 'z': V * U - R * W}
    a, d = g['a'], g['d']
    t1, t2 = P(P1['t']), P(P2['t'])
    E = X1 * Y2 + X2 * Y1
    F = Z1 * Z2 - d * t1 * t2
    G = Z1 * Z2 + d * t1 * t2
    H = Y1 * Y2 - a * X1 * X2
    return {'x': E * F, 'y': G * H, 't': E * H, 'z': F * G}


def negate(C, c):
    if C.fam == 'edwards':
        return dict(c, x=-P(c['x']), t=-P(c['t']))
    return dict(c, y=-P(c['y']))


def nowhere_zero(w, C, c):
    """the condition that the coordinates do not all vanish"""
    b = w.cd.T
    for k in ('z',) if C.fam == 'edwards' else 'xyz':
        b = b & w.cd.zero(c[k], C.p)
    return ~b


def same_point(w, C, c, o, pc):
    """coordinates c represent the projective point o (o a valid point whenever pc)"""
    cond = nowhere_zero(w, C, c)
    ks = NAMES[C.fam]
    for i, k in enumerate(ks):
        for l in ks[i + 1:]:
            cond = cond & w.cd.zero(P(c[k]) * o[l] - P(c[l]) * o[k], C.p)
            if cond.is_false():
                return cond
    return cond


def is_point(ck, w, C, v, want, key, pc=None, st=None):
    """the returned value is the projective point `want` of the curve C"""
    st = st or w.st
    pc = st.pc if pc is None else pc & st.pc
    ck.need(v is not None, key + ': returns', w.I.panics)
    ok = w.cd.F
    for g, c in coord_alts(w, C.fam, v, pc):
        if not all(reduced(w, x, C.p, pc & g) for x in c.values()):
            continue
        cc = {k: T.inner(x, C.p) for k, x in c.items()}
        ok = ok | (g & same_point(w, C, cc, want, pc & g))
    ck.ob(holds(w, ok, pc), key, 'got %s' % {k: str(x)[:300] for k, x in coord_alts(w, C.fam, v, pc)[0][1].items()}
          if v is not None else '')
    ck.ob(on_same_curve(w, C, v, st), key + ': on the given curve')


def on_same_curve(w, C, v, st):
    for g, x in alts_of(w, v):
        e = field_of_type(w, x, CURVE(C.fam), st)
        r = call(w, '<redox_ecc::%s as std::cmp::PartialEq>::eq' % CURVE(C.fam), e, C.E, st=st.copy())
        if not (isinstance(r, Bdd) and holds(w, r, st.pc & g)):
            return False
    return True


# ------------------------------------------------------------------ C20
def c20(ck):
    """The membership test on arbitrary coordinates (residues modulo a symbolic prime, arbitrary
    coefficients) is equivalent to the homogenised curve equation."""
    for fam in FAMS:
        w = World()
        with ck.case(fam + ' is_on_curve', w):
            C = Curve(w, fam)
            c = {k: w.residue('c' + k, C.p) for k in NAMES[fam]}
            pt = mk_point(w, C, c)
            w.take_panics()
            v = call(w, cmeth(fam, 'is_on_curve'), C.E, pt)
            ck.need(isinstance(v, Bdd), 'returns', w.I.panics)
            want = w.cd.T
            for q in C.equation(c):
                want = want & w.cd.zero(q, C.p)
            ck.ob(holds(w, v.iff(want), w.st.pc), 'true exactly when the equation holds', 'got %r want %r' % (v, want))
            quiet(ck, w)
    ck.rule('is_on_curve(X,Y,(T,)Z) <=> homogenised equation of the model')


# ------------------------------------------------------------------ C22 C23 C24
def setup(w, fam):
    """a symbolic curve on which the oracle formulas are complete"""
    C = Curve(w, fam, **({'b': 1} if fam == 'montgomery' else {}))
    if fam == 'edwards':
        w.cd.declare_nonzero(C.prm['a'], C.p)
        w.cd.declare_nonzero(C.prm['d'], C.p)
        w.cd.declare_nonzero(C.prm['a'] - C.prm['d'], C.p)
    return C


def group_law(ck, fam):
    prog = program()
    ops = operators(prog)
    pt = POINT(fam)
    todo = {'add': ops.get(('add', pt, pt), []), 'sub': ops.get(('sub', pt, pt), []),
            'neg': ops.get(('neg', pt), [])}
    for op, n in (('add', 4), ('sub', 4), ('neg', 2)):
        ck.floor('forms of %s on points' % op, len(todo[op]), n)
    cls = CLASSES[fam]
    oracle_ok(ck, fam)
    for c1 in cls:
        for op in ('neg',):
            w = World()
            with ck.case('-%s' % c1, w):
                C = setup(w, fam)
                P1 = of_class(w, C, c1, 1)
                p1 = mk_point(w, C, P1)
                w.take_panics()
                for fm in todo[op]:
                    with ck.case(fm.label(), w):
                        st = w.fork()
                        v = apply(w, fm, (p1,), st)
                        is_point(ck, w, C, v, negate(C, P1), 'value', st=st)
                        extended(ck, w, C, v, st)
                        quiet(ck, w)
                        w.take_panics()
        for c2 in cls + (('the same point',) if c1 == 'finite' else ()):
            w = World()
            with ck.case('%s and %s' % (c1, c2), w):
                C = setup(w, fam)
                P1 = of_class(w, C, c1, 1)
                if c2 == 'the same point':
                    s = w.residue('s2', C.p)
                    T.C.nonzero.setdefault(C.p, set()).add(s.single_gen().id)
                    P2 = {k: T.mod(P(v) * s, C.p) for k, v in P1.items()}
                else:
                    P2 = of_class(w, C, c2, 2)
                p1, p2 = mk_point(w, C, P1), mk_point(w, C, P2)
                w.take_panics()
                for op in ('add', 'sub'):
                    want = law(C, P1, P2 if op == 'add' else negate(C, P2))
                    base = nowhere_zero(w, C, want)
                    for fm in todo[op]:
                        with ck.case(fm.label(), w):
                            st = w.fork()
                            st.pc = st.pc & base
                            v = apply(w, fm, (p1, p2), st)
                            is_point(ck, w, C, v, want, 'value', st=st)
                            extended(ck, w, C, v, st)
                            quiet(ck, w, under=base)
                            w.take_panics()
    ck.assume('completeness theorem of the oracle formulas (Renes-Costello-Batina 2015 for curves without points of '
              'order two; Kim et al. 2019 when no point has y = s; Bernstein-Lange for a square and d non-square): '
              'the oracle coordinates never vanish simultaneously')
    ck.rule('the projective point computed by every operator form equals the complete-formula oracle modulo the '
            'curve equations, for every class of operands, in any scaling')


def extended(ck, w, C, v, st):
    """Edwards results have consistent extended coordinates and z != 0"""
    if C.fam != 'edwards' or v is None:
        return
    ok = w.cd.F
    for g, c in coord_alts(w, C.fam, v, st.pc):
        ok = ok | (g & w.cd.zero(P(c['x']) * c['y'] - P(c['t']) * c['z'], C.p) & ~w.cd.zero(c['z'], C.p))
    ck.ob(holds(w, ok, st.pc), 'extended coordinates are consistent')


def oracle_ok(ck, fam):
    """the oracle agrees with the chord-and-tangent law (polynomial identities modulo the curve equations)"""
    w = World()
    with ck.case('oracle agrees with the chord law', w):
        C = setup(w, fam)
        P1, P2 = affine(w, C, 1, False), affine(w, C, 2, False)
        p = C.p
        x1, y1, x2, y2 = (T.inner(v, p) for v in (P1['x'], P1['y'], P2['x'], P2['y']))
        o = law(C, P1, P2)
        if fam == 'edwards':
            num, den = x1 * y2 + x2 * y1, ONE + C.d * x1 * x2 * y1 * y2
            ck.ob(w.cd.zero(o['x'] * den - num * o['z'], p) is w.cd.T, 'x of the sum')
            num, den = y1 * y2 - C.a * x1 * x2, ONE - C.d * x1 * x2 * y1 * y2
            ck.ob(w.cd.zero(o['y'] * den - num * o['z'], p) is w.cd.T, 'y of the sum')
            return
        a2 = C.a if fam == 'montgomery' else ZERO
        n, d = y2 - y1, x2 - x1
        # x3 = l^2 - a2 - x1 - x2, y3 = l (x1 - x3) - y1 with l = n / d
        x3 = n * n - (a2 + x1 + x2) * d * d                   # over d^2
        y3 = n * (x1 * d * d - x3) - y1 * d * d * d            # over d^3
        ck.ob(w.cd.zero(o['x'] * d * d - x3 * o['z'], p) is w.cd.T, 'x of the chord')
        ck.ob(w.cd.zero(o['y'] * d * d * d - y3 * o['z'], p) is w.cd.T, 'y of the chord')
    if fam == 'edwards':
        return
    w = World()
    with ck.case('oracle agrees with the tangent law', w):
        C = setup(w, fam)
        P1 = affine(w, C, 1, False)
        p = C.p
        x1, y1 = T.inner(P1['x'], p), T.inner(P1['y'], p)
        a2 = C.a if fam == 'montgomery' else ZERO
        a4 = ONE if fam == 'montgomery' else C.a
        o = law(C, P1, P1)
        n, d = x1 * x1 * 3 + a2 * x1 * 2 + a4, y1 * 2
        x3 = n * n - (a2 + x1 * 2) * d * d
        y3 = n * (x1 * d * d - x3) - y1 * d * d * d
        ck.ob(w.cd.zero(o['x'] * d * d - x3 * o['z'], p) is w.cd.T, 'x of the tangent')
        ck.ob(w.cd.zero(o['y'] * d * d * d - y3 * o['z'], p) is w.cd.T, 'y of the tangent')
        o = law(C, P1, negate(C, P1))
        ck.ob(w.cd.zero(o['x'], p) is w.cd.T and w.cd.zero(o['z'], p) is w.cd.T, 'opposite points')
        O = identity(w, C, 9, False)
        o = law(C, P1, O)
        ck.ob(all(w.cd.zero(o[k] * P1[l] - o[l] * P1[k], p) is w.cd.T for k, l in ('xy', 'xz', 'yz')), 'neutral element')


def c22(ck):
    """Polynomial identities modulo the curve equation for every operand class (see group_law)."""
    group_law(ck, 'weierstrass')


def c23(ck):
    """Polynomial identities modulo the curve equation for every operand class (see group_law)."""
    group_law(ck, 'montgomery')


def c24(ck):
    """Polynomial identities modulo the curve equation for every operand class (see group_law)."""
    group_law(ck, 'edwards')


# ------------------------------------------------------------------ C26 C27
def c26(ck):
    """is_zero and == on every class of points in arbitrary scalings; equivalence of conditions."""
    for fam in FAMS:
        cls = CLASSES[fam]
        for c1 in cls:
            w = World()
            with ck.case('%s is_zero, %s' % (fam, c1), w):
                C = Curve(w, fam)
                P1 = of_class(w, C, c1, 1)
                p1 = mk_point(w, C, P1)
                w.take_panics()
                v = call(w, pmeth(fam, 'is_zero'), p1)
                ck.need(isinstance(v, Bdd), 'returns', w.I.panics)
                if fam == 'edwards':
                    want = w.cd.zero(P1['x'], C.p) & w.cd.zero(P1['y'] - P1['z'], C.p)
                else:
                    want = w.cd.mgr.const(c1 == 'infinity')
                ck.ob(holds(w, v.iff(want), w.st.pc), 'true exactly for the neutral element', 'got %r want %r' % (v, want))
                quiet(ck, w)
            if fam == 'montgomery':
                w = World()
                with ck.case('%s is_two_torsion, %s' % (fam, c1), w):
                    C = Curve(w, fam)
                    P1 = of_class(w, C, c1, 1)
                    p1 = mk_point(w, C, P1)
                    w.take_panics()
                    v = call(w, 'redox_ecc::montgomery::point::Point::is_two_torsion', p1)
                    ck.need(isinstance(v, Bdd), 'returns', w.I.panics)
                    want = w.cd.F if c1 == 'infinity' else w.cd.zero(P1['y'], C.p)
                    ck.ob(holds(w, v.iff(want), w.st.pc), 'true exactly for the finite points with y = 0',
                          'got %r want %r' % (v, want))
                    quiet(ck, w)
            for c2 in cls:
                w = World()
                with ck.case('%s ==, %s and %s' % (fam, c1, c2), w):
                    C = Curve(w, fam)
                    P1, P2 = of_class(w, C, c1, 1), of_class(w, C, c2, 2)
                    p1, p2 = mk_point(w, C, P1), mk_point(w, C, P2)
                    w.take_panics()
                    nm = '<redox_ecc::%s as std::cmp::PartialEq>::eq' % POINT(fam)
                    v = call(w, nm, p1, p2)
                    ck.need(isinstance(v, Bdd), 'returns', w.I.panics)
                    if c1 == c2 == 'finite':
                        want = w.cd.T
                        for k in 'xy':
                            want = want & w.cd.zero(P(P1[k]) * P2['z'] - P(P2[k]) * P1['z'], C.p)
                    else:
                        want = w.cd.mgr.const(c1 == c2)
                    ck.ob(holds(w, v.iff(want), w.st.pc), 'true exactly for the same group element',
                          'got %r want %r' % (v, want))
                    negation(ck, w, 'redox_ecc::' + POINT(fam), v, p1, p2)
                    quiet(ck, w)
            w = World()
            with ck.case('%s ==, %s in another scaling' % (fam, c1), w):
                C = Curve(w, fam)
                P1 = of_class(w, C, c1, 1)
                P2 = rescale(w, C, P1)
                p1, p2 = mk_point(w, C, P1), mk_point(w, C, P2)
                v = call(w, '<redox_ecc::%s as std::cmp::PartialEq>::eq' % POINT(fam), p1, p2)
                ck.need(isinstance(v, Bdd), 'returns', w.I.panics)
                ck.ob(holds(w, v, w.st.pc), 'equal', v)
                negation(ck, w, 'redox_ecc::' + POINT(fam), v, p1, p2)
                quiet(ck, w)
    ck.rule('is_zero <=> neutral element; == <=> proportional coordinates, for points of one curve in any scaling')


def rescale(w, C, c):
    s = w.residue('s9', C.p)
    T.C.nonzero.setdefault(C.p, set()).add(s.single_gen().id)
    return {k: T.mod(P(v) * s, C.p) for k, v in c.items()}


def c27(ck):
    """In-place normalisation evaluated on every class of points in arbitrary scalings."""
    for fam in FAMS:
        for c1 in CLASSES[fam]:
            w = World()
            with ck.case('%s normalize, %s' % (fam, c1), w):
                C = Curve(w, fam)
                P1 = of_class(w, C, c1, 1)
                p1 = mk_point(w, C, P1)
                w.take_panics()
                r = w.ref(p1)
                u = w.run('redox_ecc::%s::normalize' % POINT(fam), [r])
                ck.need(u is not None, 'returns', w.I.panics)
                v = w.value(r)
                is_point(ck, w, C, v, P1, 'same group element')
                if c1 == 'finite':
                    for g, c in coord_alts(w, fam, v, w.st.pc):
                        if theory.refuted(w.cd, g & w.st.pc):
                            continue
                        ck.ob(holds(w, w.cd.zero(c['z'] - 1, C.p), w.st.pc & g), 'z becomes one', c['z'])
                        if fam == 'edwards':
                            ck.ob(holds(w, w.cd.zero(c['t'] - P(c['x']) * c['y'], C.p), w.st.pc & g), 't = x y')
                quiet(ck, w)
    ck.rule('normalize leaves the projective point unchanged and sets z to one on finite points')


# ------------------------------------------------------------------ C40
def c40(ck):
    """Constructor and getters over symbolic parameter sets."""
    for fam in FAMS:
        w = World()
        with ck.case(fam + ' getters', w):
            C = Curve(w, fam)
            v = call(w, cmeth(fam, 'get_order'), C.E)
            ck.ob(v is not None and same(w, v, C.prm['r'], w.st.pc), 'order', v)
            v = call(w, cmeth(fam, 'get_cofactor'), C.E)
            ck.ob(v is not None and same(w, v, C.prm['h'], w.st.pc), 'cofactor', v)
            F = call(w, cmeth(fam, 'get_field'), C.E)
            m = call(w, '<redox_ecc::primefield::Fp as redox_ecc::field::Field>::get_modulus', F)
            ck.ob(same(w, m, C.p, w.st.pc), 'field', m)
            k = T.sym('k')
            s = call(w, cmeth(fam, 'new_scalar'), C.E, k)
            from . import scalar as SC
            SC._SL.setdefault(fam, SC.slots(World(), fam)) if fam not in SC._SL else None
            quiet(ck, w)
        w = World()
        with ck.case(fam + ' new_scalar', w):
            from . import scalar as SC
            SC._SL[fam] = SC.slots(w_reset(), fam)
            w = World()
            C = Curve(w, fam)
            k = T.sym('k')
            s = call(w, cmeth(fam, 'new_scalar'), C.E, k)
            SC.is_scalar(ck, w, fam, s, k, C.prm['r'])
            quiet(ck, w)
        w = World()
        with ck.case(fam + ' generator', w):
            C = Curve(w, fam)
            on = w.cd.T
            aff = {'x': C.prm['gx'], 'y': C.prm['gy'], 'z': ONE, 't': C.prm['gx'] * C.prm['gy']}
            for q in C.equation(aff):
                on = on & w.cd.zero(q, C.p)
            w.st.pc = on
            v = call(w, cmeth(fam, 'get_generator'), C.E)
            ck.need(v is not None, 'returns', w.I.panics)
            is_point(ck, w, C, v, aff, 'affine coordinates as given', pc=on)
            ck.ob(not [q for q in w.I.panics if not theory.refuted(w.cd, q.guard & on)], 'never panics', w.I.panics)
        w = World()
        with ck.case(fam + ' identity', w):
            C = Curve(w, fam)
            v = call(w, cmeth(fam, 'identity'), C.E)
            is_point(ck, w, C, v, identity(w, C, 0), 'neutral element')
            quiet(ck, w)
        w = World()
        with ck.case(fam + ' coefficients', w):
            # the coefficients in use: a point satisfying the given equation is accepted
            C = Curve(w, fam)
            c = {k: w.residue('c' + k, C.p) for k in NAMES[fam]}
            v = call(w, cmeth(fam, 'is_on_curve'), C.E, mk_point(w, C, c))
            ck.need(isinstance(v, Bdd), 'returns', w.I.panics)
            want = w.cd.T
            for q in C.equation(c):
                want = want & w.cd.zero(q, C.p)
            ck.ob(holds(w, v.iff(want), w.st.pc), 'the equation uses the given coefficients', v)
            quiet(ck, w)
        names = [n for n, _ in program().types[program().type_id(ty(fam, 'curve::Params'))]['v'][0]['f'] if n != 'name']
        ck.floor(fam + ' parameters', len(names), 7)
        for diff in [None] + names:
            w = World()
            with ck.case('%s ==, %s' % (fam, 'all parameters equal' if diff is None else diff + ' differs'), w):
                C = Curve(w, fam)
                if diff == 'p':
                    # the coefficients are taken small enough to be canonical in both fields
                    q = w.prime('q', 5)
                    for n in FAMS[fam] + ('gx', 'gy'):
                        pass
                    D = Curve(w, fam, p=q, order=C.prm['r'], h=C.prm['h'])
                    w.st.pc = ~w.cd.eq(C.p, q)
                else:
                    kw = {n: C.prm[n] for n in names if n not in ('p', diff)}
                    D = Curve2(w, C, diff)
                    if diff is not None:
                        w.st.pc = ~w.cd.eq(C.prm[diff], D.prm[diff])
                v = call(w, '<redox_ecc::%s as std::cmp::PartialEq>::eq' % CURVE(fam), C.E, D.E)
                ck.need(isinstance(v, Bdd), 'returns', w.I.panics)
                ck.ob(holds(w, v if diff is None else ~v, w.st.pc), 'equal' if diff is None else 'not equal', v)
                negation(ck, w, 'redox_ecc::' + CURVE(fam), v, C.E, D.E)
                quiet(ck, w)
    ck.rule('getters, generator, identity and membership use exactly the given parameters; == holds iff all agree')


def w_reset():
    return World()


def Curve2(w, C, diff):
    """a second curve built separately from the same parameters, except diff"""
    fixed = {}
    names = [n for n, _ in w.prog.types[tn(w, ty(C.fam, 'curve::Params'))]['v'][0]['f'] if n != 'name']
    for n in names:
        if n in ('p',):
            continue
        if n == diff:
            fixed[n] = T.sym(n + "'", 1) if n in ('r', 'h') else w.residue(n + "'", C.p)
        else:
            fixed[n] = C.prm[n]
    return Curve(w, C.fam, p=C.p, order=fixed['r'], tag='', **fixed)
