"""Maps between shipped curves: C36 edwards25519, C37 edwards448, C38 isogenies."""
from .common import *
from . import primef as PF
from . import curves as CV
from . import std_curves as S
from . import std_maps as SM
from .instances import get_curve
from .primef import quiet, alts_of
from .curves import cmeth, CURVE, POINT, NAMES, coord_alts, mk_point, is_point, on_same_curve

MOD = 'redox_ecc::instances::rational_maps::'


def shipped(w, name):
    """the identifier's curve with the published constants as oracle"""
    c = S.CURVES[name]
    T.C.primes[P(c['p'])] = {'odd': True, 'min': c['p']}       # primality: C39
    E, fam = get_curve(w, name)
    if fam != c['fam']:
        raise Unsupported('%s is a %s curve' % (name, fam))
    C = CV.Curve.__new__(CV.Curve)
    C.__dict__.update(w=w, fam=fam, E=E, p=P(c['p']), prm={k: P(c[k] % c['p']) for k in 'abd' if k in c})
    return C


def method(w, v, name):
    """the method `name` of the type of the value v, whatever that type is called"""
    if not isinstance(v, Agg):
        raise Unsupported('a struct expected, got %r' % (v,))
    l = []
    for f in w.prog.crate_fns():
        if f.blocks and f.name.split('::')[-1] == name and f.argc >= 1 and base_ty(w.prog, f.locals[1])[0] == v.tag \
                and (' as redox_ecc::ellipticcurve::' in f.name):
            l.append(f)
    if len(l) != 1:
        raise Unsupported('%d methods %s on %s' % (len(l), name, w.prog.tn[v.tag]))
    return l[0]


def construct(w, name):
    l = [f for f in w.prog.crate_fns() if f.blocks and f.name == MOD + name]
    if len(l) != 1:
        raise Unsupported('%d functions named %s' % (len(l), name))
    v = w.run(l[0], [])
    if v is None:
        raise Unsupported('%s always panics: %r' % (name, w.I.panics))
    return v


def ends(ck, w, m, C0, C1):
    for meth, C in (('domain', C0), ('codomain', C1)):
        v = call(w, method(w, m, meth), m)
        ck.need(v is not None, meth + ' returns', w.I.panics)
        r = call(w, '<redox_ecc::%s as std::cmp::PartialEq>::eq' % CURVE(C.fam), v, C.E)
        ck.ob(isinstance(r, Bdd) and holds(w, r, w.st.pc), meth, r)


def rule(p, g, e, rep):
    T.C.rules.setdefault(p, []).append((g.single_gen().id, e, P(rep)))
    T.C.modcache.clear()


def nonzero(w, q, p):
    g = q.single_gen()
    if g is not None:
        T.C.nonzero.setdefault(p, set()).add(g.id)
        w.cd.zcache.clear()
    elif not w.cd.declare_nonzero(q, p):
        raise Unsupported('cannot declare %s nonzero' % q)


def generic(w, C):
    """(x, y, scaled coordinates) of a point of the curve, as polynomials"""
    p = C.p
    x, y, s = w.residue('x', p), w.residue('y', p), w.residue('s', p)
    nonzero(w, s, p)
    g = C.prm
    if C.fam == 'weierstrass':
        rule(p, y, 2, x * x * x + g['a'] * x + g['b'])
    elif C.fam == 'montgomery':
        rule(p, y, 2, (x * x * x + g['a'] * x * x + x).scale(pow(g['b'].const(), -1, p.const())))
    else:
        den = 1 - g['d'] * x * x
        nonzero(w, den, p)
        rule(p, y, 2, (1 - g['a'] * x * x) * T._inv_poly(T.flat(den, p), p))
    return x, y, s, scaled(C, x, y, s)


def scaled(C, x, y, s):
    c = {'x': s * P(x), 'y': s * P(y), 'z': s}
    if C.fam == 'edwards':
        c['t'] = s * P(x) * y
    return c


def scale(w, C, name='s'):
    s = w.residue(name, C.p)
    nonzero(w, s, C.p)
    return s


def neutral(w, C):
    return CV.identity(w, C, '')


def apply(ck, w, m, meth, C0, C1, co, want, key):
    """meth maps the point with coordinates co to the point want; the value is returned"""
    pt = mk_point(w, C0, co)
    w.take_panics()
    v = call(w, method(w, m, meth), m, pt)
    is_point(ck, w, C1, v, want, key)
    CV.extended(ck, w, C1, v, w.st)
    quiet(ck, w)
    w.take_panics()
    return v


def back(ck, w, m, meth, C0, C1, v, want, key):
    """the point value v mapped by meth is want"""
    v2 = call(w, method(w, m, meth), m, v)
    is_point(ck, w, C1, v2, want, key)
    quiet(ck, w)
    w.take_panics()


def start(ctor, n0, n1):
    w = World()
    C0, C1 = shipped(w, n0), shipped(w, n1)
    m = construct(w, ctor)
    w.take_panics()
    return w, C0, C1, m


def c36(ck):
    """push and pull on a generic point in any scaling and on every exceptional point, against the RFC 7748 map."""
    ctor, n0, n1 = 'edwards25519_to_curve25519', 'EDWARDS25519', 'CURVE25519'
    e0, e1 = S.CURVES[n0], S.CURVES[n1]
    p = e0['p']
    c = SM.c25519()
    with ck.case('published map'):
        ck.ob(c is not None and (c * c + 486664) % p == 0, 'the generators correspond')
        ck.ob(not S.square(e1['a'] ** 2 - 4, p), 'one point of order two')
        ck.ob(not S.square((e1['a'] - 2) * pow(e1['b'], -1, p), p), 'no point with u = -1')
        ck.ob(S.square(e0['a'], p) and not S.square(e0['d'], p), 'complete Edwards curve')
    w, C0, C1, m = start(ctor, n0, n1)
    with ck.case('ends', w):
        ends(ck, w, m, C0, C1)
        quiet(ck, w)
    # generic points: x != 0 (hence y != 1, -1) and v != 0 (hence u != 0; u = -1 is on no point)
    w, C0, C1, m = start(ctor, n0, n1)
    with ck.case('push, generic point', w):
        x, y, s, co = generic(w, C0)
        for q in (x, 1 - y, 1 + y):
            nonzero(w, q, C0.p)
        img = {'x': x * (1 + y), 'y': (1 + y).scale(c), 'z': x * (1 - y)}
        v = apply(ck, w, m, 'push', C0, C1, co, img, 'image')
        back(ck, w, m, 'pull', C1, C0, v, co, 'pulled back')
    w, C0, C1, m = start(ctor, n0, n1)
    with ck.case('pull, generic point', w):
        u, v_, s, co = generic(w, C1)
        for q in (v_, u, u + 1):
            nonzero(w, q, C1.p)
        # (x, y) = (c u / v, (u - 1)/(u + 1))
        img = {'x': (u * (u + 1)).scale(c), 'y': v_ * (u - 1), 'z': v_ * (u + 1)}
        img['t'] = (u * (u - 1)).scale(c)
        v = apply(ck, w, m, 'pull', C1, C0, co, img, 'image')
        back(ck, w, m, 'push', C0, C1, v, co, 'pushed back')
    for nm in ('neutral element', 'point of order two'):
        for meth in ('push', 'pull'):
            w, C0, C1, m = start(ctor, n0, n1)
            with ck.case('%s, %s' % (meth, nm), w):
                s = scale(w, C0)
                if nm == 'neutral element':
                    a, b = {'x': ZERO, 'y': s, 'z': s, 't': ZERO}, {'x': ZERO, 'y': s, 'z': ZERO}
                else:
                    a, b = {'x': ZERO, 'y': -s, 'z': s, 't': ZERO}, {'x': ZERO, 'y': ZERO, 'z': s}
                a = {k: T.mod(P(t), C0.p) for k, t in a.items()}
                if meth == 'push':
                    v = apply(ck, w, m, 'push', C0, C1, a, b, 'image')
                    back(ck, w, m, 'pull', C1, C0, v, a, 'pulled back')
                else:
                    v = apply(ck, w, m, 'pull', C1, C0, b, a, 'image')
                    back(ck, w, m, 'push', C0, C1, v, b, 'pushed back')
    ck.assume('every point is the neutral element, the point of order two, or generic (x != 0, v != 0): table obligations')
    ck.rule('push = ((1+y)/(1-y), c u/x), pull its inverse, pull(push(P)) = P and push(pull(Q)) = Q as projective points')


def c37(ck):
    """push and pull on a generic point in any scaling and on every exceptional point, against the RFC 7748 isogenies."""
    ctor, n0, n1 = 'edwards448_to_curve448', 'EDWARDS448', 'CURVE448'
    e0, e1 = S.CURVES[n0], S.CURVES[n1]
    p, a = e0['p'], e1['a']
    with ck.case('published maps'):
        for what, ok in SM.iso448():
            ck.ob(ok, what)
        ck.ob(not S.square(a * a - 4, p), 'one point of order two on curve448')
        ck.ob(S.square(e0['a'], p) and not S.square(e0['d'], p), 'complete Edwards curve')
        ck.ob(e1['b'] == 1, 'b is one')
        ck.ob(not S.has_root([1, 4, 4 * a - 2, 4], p), 'the denominator of x vanishes at no point')
        ck.ob(not S.has_root([1, 2 * a, 6, 2 * a], p), 'the denominator of y vanishes only at u = 0')
    w, C0, C1, m = start(ctor, n0, n1)
    with ck.case('ends', w):
        ends(ck, w, m, C0, C1)
        quiet(ck, w)
    w, C0, C1, m = start(ctor, n0, n1)
    with ck.case('push, generic point', w):
        x, y, s, co = generic(w, C0)
        nonzero(w, x, C0.p)
        img = {'x': x * y * y, 'y': (2 - x * x - y * y) * y, 'z': x * x * x}
        apply(ck, w, m, 'push', C0, C1, co, img, 'image')
    w, C0, C1, m = start(ctor, n0, n1)
    with ck.case('pull, generic point', w):
        u, v, s, co = generic(w, C1)
        q = C1.p
        nonzero(w, u, q)
        nonzero(w, v, q)
        nonzero(w, u ** 4 + u ** 3 * 4 + (u * u).scale(4 * a - 2) + u * 4 + 1, q)
        nonzero(w, u ** 4 + (u ** 3).scale(2 * a) + u * u * 6 + u.scale(2 * a) + 1, q)
        xn, xd = v * 4 * (u * u - 1), u ** 4 - u * u * 2 + v * v * 4 + 1
        yn = -(u ** 5 - u ** 3 * 2 - u * v * v * 4 + u)
        yd = u ** 5 - u * u * v * v * 2 - u ** 3 * 2 - v * v * 2 + u
        img = {'x': xn * yd, 'y': yn * xd, 'z': xd * yd, 't': xn * yn}
        img = {k: T.flat(t, q) for k, t in img.items()}
        apply(ck, w, m, 'pull', C1, C0, co, img, 'image')
    for meth, nm in (('push', 'neutral element'), ('push', 'point of order two'), ('pull', 'neutral element'),
                     ('pull', 'point of order two')):
        w, C0, C1, m = start(ctor, n0, n1)
        with ck.case('%s, %s' % (meth, nm), w):
            s = scale(w, C0)
            if meth == 'push':
                co = {'x': ZERO, 'y': s if nm[0] == 'n' else T.mod(-s, C0.p), 'z': s, 't': ZERO}
                apply(ck, w, m, 'push', C0, C1, co, neutral_of('montgomery'), 'kernel')
            else:
                co = {'x': ZERO, 'y': s, 'z': ZERO} if nm[0] == 'n' else {'x': ZERO, 'y': ZERO, 'z': s}
                apply(ck, w, m, 'pull', C1, C0, co, neutral_of('edwards'), 'kernel')
    ck.assume('two rational functions on the curve that agree at more points than the sum of their degrees are equal '
              '(pull after push is multiplication by four: 160 points)')
    ck.rule('push and pull are the RFC 7748 4-isogenies on every point in any scaling; kernel points go to the identity; '
            'the published maps compose to multiplication by four')


def neutral_of(fam):
    if fam == 'edwards':
        return {'x': ZERO, 'y': ONE, 'z': ONE, 't': ZERO}
    return {'x': ZERO, 'y': ONE, 'z': ZERO}


def hpoly(h, x):
    r = ZERO
    for k, c in enumerate(h):
        r = r + (x ** k).scale(c)
    return r


def c38(ck):
    """Isogenies on a generic point in any scaling, on the kernel and on the identity, against RFC 9380 tables."""
    for ctor, t in SM.ISOGENIES.items():
        p = S.CURVES[t['from']]['p']
        with ck.case(ctor + ' published tables'):
            for what, ok in SM.consistent(ctor):
                ck.ob(ok, what)
        h = SM.kernel(ctor)
        if h is None:
            continue
        w, C0, C1, m = start(ctor, t['from'], t['to'])
        with ck.case(ctor + ' ends', w):
            ends(ck, w, m, C0, C1)
            quiet(ck, w)
        w, C0, C1, m = start(ctor, t['from'], t['to'])
        with ck.case(ctor + ', generic point', w):
            x, y, s, co = generic(w, C0)
            nonzero(w, hpoly(h, x), C0.p)
            f = {k: hpoly(t[k], x) for k in ('x_num', 'x_den', 'y_num', 'y_den')}
            fl = lambda q: T.flat(q, C0.p)
            img = {'x': fl(f['x_num'] * hpoly(h, x)), 'y': fl(y * f['y_num']), 'z': f['y_den']}
            apply(ck, w, m, 'push', C0, C1, co, img, 'image')
        w, C0, C1, m = start(ctor, t['from'], t['to'])
        with ck.case(ctor + ', kernel point', w):
            x, y, s, co = generic(w, C0)
            rule(C0.p, x, len(h) - 1, (x ** (len(h) - 1)) - hpoly(h, x))
            nonzero(w, y, C0.p)
            co = {k: T.mod(P(v), C0.p) for k, v in co.items()}
            apply(ck, w, m, 'push', C0, C1, co, neutral_of('weierstrass'), 'image')
        w, C0, C1, m = start(ctor, t['from'], t['to'])
        with ck.case(ctor + ', identity', w):
            apply(ck, w, m, 'push', C0, C1, neutral(w, C0), neutral_of('weierstrass'), 'image')
    ck.floor('isogenies', len(SM.ISOGENIES), 2)
    ck.rule('push(P) = (x_num/x_den, y y_num/y_den) with the RFC 9380 tables off the kernel, the identity on it')
