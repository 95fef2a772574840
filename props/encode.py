"""Point encodings: C28 SEC1 encoding, C29 SEC1 decoding, C30 Edwards (RFC 8032)."""
from .common import *
from . import primef as PF
from . import curves as CV
from . import contracts as K
from .primef import quiet, alts_of, bytes_obj, decode_call, result_parts
from .curves import cmeth, CURVE, POINT, mk_point, coord_alts, on_same_curve
from fractions import Fraction
from engine import bytesdom as B

ENC = '<redox_ecc::%s as redox_ecc::ellipticcurve::Encode>::encode'
DEC = '<redox_ecc::%s as redox_ecc::ellipticcurve::Decode>::decode'


def width(w, p):
    return T.floordiv(w.M.bd.bits(p) + 7, 8)


def byte_alts(w, b, pc):
    """[(guard, bytes)] with single bytes that are plain terms"""
    b = B.normal(bytes_obj(b).segs)
    acc = [(w.cd.T, [])]
    for s in b.segs:
        if s[0] == 'b' and isinstance(s[1], Un):
            nx = []
            for g, l in acc:
                for g2, v in s[1].alts:
                    if not (g & g2 & pc).is_false():
                        nx.append((g & g2, l + [('b', v)]))
            acc = nx
        else:
            acc = [(g, l + [s]) for g, l in acc]
    return [(g, Bytes(l)) for g, l in acc]


def encoding(ck, w, v, want):
    """v is, under each guard of want, that byte string; want = [(guard, Bytes)]"""
    ck.need(v is not None, 'returns', w.I.panics)
    ok = w.cd.F
    got = []
    for g, x in alts_of(w, w.value(v)):
        for g2, b in byte_alts(w, x, w.st.pc & g):
            got.append((g & g2, b))
            for gw, bw in want:
                gg = g & g2 & gw
                if (gg & w.st.pc).is_false():
                    continue
                if same_bytes(w, b, bw, w.st.pc & gg):
                    ok = ok | gg
    ck.ob(holds(w, ok, w.st.pc), 'the prescribed bytes', 'got %s' % [(str(g)[:80], repr(b)[:200]) for g, b in got[:6]])


def same_bytes(w, a, b, pc):
    """equal byte strings; a head byte may be an expression"""
    a, b = B.normal(a.segs), B.normal(b.segs)
    if w.M.bd.equal(a, b, pc):
        return True
    if len(a.segs) != len(b.segs):
        return False
    for s, t in zip(a.segs, b.segs):
        if s[0] != t[0]:
            return False
        if s[0] == 'b':
            if not same(w, s[1], t[1], pc):
                return False
        elif s[0] in ('be', 'le'):
            if not same(w, *unify(w, settle(w, s[1], pc), settle(w, t[1], pc), pc), pc) or not same(w, s[2], t[2], pc):
                return False
        elif not w.M.bd.equal(Bytes([s]), Bytes([t]), pc):
            return False
    return True


def settle(w, q, pc):
    """0/1 generators of q whose value pc determines, replaced"""
    for g in sorted(P(q).gens()):
        gg = T.C.gens[g]
        if gg.lo == 0 and gg.hi == 1:
            b = w.cd.bit(g)
            if holds(w, b, pc):
                q = q.subs({g: ONE})
            elif holds(w, ~b, pc):
                q = q.subs({g: ZERO})
    # lengths that pc pins down, also inside powers of two
    pin = {}
    for e in w.cd.facts(pc).ez:
        for g in e.gens():
            c = e.d.get(((g, 1),))
            if T.C.gens[g].kind == 'nbytes' and c in (1, -1):
                pin[g] = P(T.C.gens[g]) - e.scale(c)
    if pin:
        mp = dict(pin)
        for g in P(q).gens():
            gg = T.C.gens[g]
            if gg.kind == 'pow2':
                mp[g] = w.M.bd.pow2(gg.args[0].subs(pin))
        q = P(q).subs(mp)
    return q


def unify(w, a, b, pc):
    """a written with the powers of two of b where pc makes the exponents equal"""
    a, b = P(a), P(b)
    pows = lambda q: [g for g in q.gens() if T.C.gens[g].kind == 'pow2']
    mp = {}
    for g in pows(a):
        for h in pows(b):
            d = T.C.gens[g].args[0] - T.C.gens[h].args[0]
            if all(c % 8 == 0 for c in d.d.values()):
                d = d.scale(Fraction(1, 8))
            if g != h and same(w, d, ZERO, pc):
                mp[g] = P(T.C.gens[h])
    return a.subs(mp) if mp else a, b


def untouched(ck, w, C, obj, pt, st):
    """the operand is what it was"""
    now = w.M.val(obj, st)
    a, b = coord_alts(w, C.fam, now, st.pc), coord_alts(w, C.fam, pt, st.pc)
    ck.ob(len(a) == len(b) and all(x[1] == y[1] for x, y in zip(a, b)), 'the point is not altered')


def c28(ck):
    """Encoders on symbolic points of each class in an arbitrary projective scaling (segment domain for bytes)."""
    for fam in ('weierstrass', 'montgomery'):
        fn = ENC % POINT(fam)
        for cl in CV.CLASSES[fam]:
            for compress in (False, True):
                w = World()
                with ck.case('%s, %s point, %s' % (fam, cl, 'compressed' if compress else 'uncompressed'), w):
                    C = CV.Curve(w, fam)
                    p = C.p
                    c = CV.of_class(w, C, cl, 1)
                    pt = mk_point(w, C, c)
                    r = w.ref(pt)
                    w.take_panics()
                    v = w.run(w.by_name(fn), [r, w.cd.mgr.const(compress)])
                    if cl == 'infinity':
                        want = [(w.cd.T, Bytes([('b', ZERO)]))]
                    else:
                        x, y = w_affine(c)
                        L = width(w, p)
                        X, Y = ('be', T.mod(x, p), L), ('be', T.mod(y, p), L)
                        if compress:
                            o = w.cd.odd(y, p)
                            want = [(o, Bytes([('b', P(3)), X])), (~o, Bytes([('b', P(2)), X]))]
                        else:
                            want = [(w.cd.T, Bytes([('b', P(4)), X, Y]))]
                    encoding(ck, w, v, want)
                    untouched(ck, w, C, r, pt, w.st)
                    quiet(ck, w)
    ck.rule('encode(sX : sY : s) = 00 | 04 x y | 02/03 x with the fixed width of the field, for every s and both forms')


def w_affine(c):
    """x and y of the coordinates made by curves.affine"""
    s = P(c['z'])
    return T.exact_div(P(c['x']), s, P(0)) if False else _div(c['x'], s), _div(c['y'], s)


def _div(q, s):
    """q / s for a product of residue symbols"""
    g = P(s).single_gen()
    out = {}
    for mm, k in P(q).d.items():
        d = dict(mm)
        d[g.id] -= 1
        out[tuple(sorted((a, e) for a, e in d.items() if e))] = k
    return Poly(out)


def total_root(ck):
    """the root function itself returns some residue on every input (the decoders call it before knowing better)"""
    for r in (3, 7, 11, 15, 5, 13):
        w = World()
        with ck.case('p = %d mod 16: the root function is total' % r, w):
            p, F = PF.prime_field(w, max(3, r), (r, 16))
            x = w.residue('x', p)
            v = call(w, K.SQ + 'sqrt', PF.mk_elt(w, F, x))
            ck.need(v is not None, 'returns', w.I.panics)
            ok = w.cd.F
            for g, y, n in K.elt_parts(w, v):
                if reduced(w, n, p, w.st.pc & g):
                    ok = ok | g
            ck.ob(holds(w, ok, w.st.pc), 'a canonical residue')
            quiet(ck, w)


def decoded(ck, w, C, r, want):
    """r is Ok(point) exactly under the guards of want = [(guard, x, condition on y as function)], else Err"""
    cd, p = w.cd, C.p
    ck.need(r is not None, 'returns', w.I.panics)
    ok, v, err = result_parts(w, r)
    valid = cd.F
    for g, _, _ in want:
        valid = valid | g
    ck.ob(holds(w, ~ok, w.st.pc & ~valid), 'rejects everything else', 'accepted: %s' % str(ok & ~valid & w.st.pc)[:500])
    ck.ob(holds(w, ok, w.st.pc & valid), 'accepts every encoding', 'rejected: %s' % str(valid & ~ok & w.st.pc)[:500])
    if v is None:
        return
    pc0 = w.st.pc
    good = cd.F
    for g, c in coord_alts(w, C.fam, v, pc0 & ok):
        cc = {k: T.inner(x, p) for k, x in c.items()}
        if not all(isinstance(x, Poly) for x in c.values()):
            continue
        for x in c.values():
            if not T.in_range(x, p):
                g = g & cd.ge(x) & cd.ge(p - 1 - x)
        for gw, x, fy in want:
            gg = g & gw
            if (gg & pc0).is_false():
                continue
            e = fy(cc)
            if x is not None:
                e = e & cd.zero(cc['x'] - x * cc['z'], p) & ~cd.zero(cc['z'], p)
            good = good | (gg & e)
    ck.ob(holds(w, good, pc0 & ok & valid), 'the encoded point', 'got %s' % [str(c) for _, c in coord_alts(w, C.fam, v, pc0)][:2])
    w.st.pc = pc0 & ok
    ck.ob(on_same_curve(w, C, v, w.st), 'on the given curve')
    w.st.pc = pc0


def aff(c, k, p):
    return T.flat(c[k] * T._inv_poly(T.flat(c['z'], p), p), p)


def c29(ck):
    """Decoders on an arbitrary byte string (symbolic length and content) over a symbolic curve; roots by their
    contract (C05)."""
    total_root(ck)
    for fam in ('weierstrass', 'montgomery'):
        for k in ('empty', 'one byte', 'compressed length', 'uncompressed length', 'any other length'):
            for tg in (0, 2, 3, 4, None) if k != 'empty' else (None,):
                w = World()
                with ck.case('%s, %s, %s' % (fam, k, 'any other tag' if tg is None else 'tag %d' % tg), w):
                    c29case(ck, w, fam, k, tg)
    ck.rule('decode(bytes) = Ok(P) exactly when bytes are an encoding of the point P, otherwise Err, no panic')


def c29case(ck, w, fam, k, tg):
    C = CV.Curve(w, fam)
    p, cd = C.p, w.cd
    if fam == 'montgomery':
        T.C.nonzero.setdefault(p, set()).add(C.prm['b'].single_gen().id)
        cd.zcache.clear()
    K.square_roots(w, p)
    L = width(w, p)
    n = {'empty': ZERO, 'one byte': ONE, 'compressed length': L + 1, 'uncompressed length': L.scale(2) + 1}.get(k)
    if n is None:
        n = T.sym('len', 2, 2 ** 40)
        w.st.pc = ~cd.eq(n, L + 1) & ~cd.eq(n, L.scale(2) + 1)
    if tg is None:
        t = w.M.bd.vbyte('buf', ZERO)
        buf = Bytes([('v', 'buf', ZERO, n)])
        for j in (0, 2, 3, 4):
            w.st.pc = w.st.pc & ~cd.eq(t, P(j))
    else:
        buf = Bytes([('b', P(tg)), ('v', 'buf', ONE, n - 1)])
    X = P(T.C.gen('beval', ('buf', ONE, L), 0, None))
    Y = P(T.C.gen('beval', ('buf', ONE + L, L), 0, None))
    xin, yin = cd.ge(p - X - 1), cd.ge(p - Y - 1)
    rhs = curve_rhs(C, X)
    sq = cd.square(rhs, p)
    z0 = cd.zero(rhs, p)
    want = []
    if k == 'one byte' and tg == 0:
        want = [(cd.T, None, lambda c: cd.zero(c['x'], p) & cd.zero(c['z'], p) & ~cd.zero(c['y'], p))]
    elif k == 'uncompressed length' and tg == 4:
        want = [(xin & yin & cd.zero(rhs - Y * Y, p), X, lambda c: cd.zero(c['y'] - Y * c['z'], p))]
    elif k == 'compressed length' and tg == 2:
        want = [(xin & sq, X, lambda c: half(w, C, c, rhs) & ~cd.odd(aff(c, 'y', p), p))]
    elif k == 'compressed length' and tg == 3:
        want = [(xin & sq & ~z0, X, lambda c: half(w, C, c, rhs) & cd.odd(aff(c, 'y', p), p))]
    w.take_panics()
    r = decode_call(w, DEC % CURVE(fam), C.E, buf)
    decoded(ck, w, C, r, want)
    quiet(ck, w)


def curve_rhs(C, X):
    """the value y^2 must have"""
    g = C.prm
    if C.fam == 'weierstrass':
        return T.flat(X ** 3 + g['a'] * X + g['b'], C.p)
    return T.flat((X ** 3 + g['a'] * X * X + X) * T._inv_poly(g['b'], C.p), C.p)


def half(w, C, c, rhs):
    """y^2 is the prescribed value"""
    y = aff(c, 'y', C.p)
    return w.cd.zero(y * y - rhs, C.p)


def esize(w, p):
    """ceil((bits(p) + 1) / 8)"""
    return T.floordiv(w.M.bd.bits(p) + 8, 8)


def c30(ck):
    """RFC 8032 encoder on symbolic points in any scaling; decoder on an arbitrary byte string."""
    total_root(ck)
    fam = 'edwards'
    for compress in (False, True):
        w = World()
        with ck.case('encode, %s flag' % compress, w):
            C = CV.Curve(w, fam)
            p, cd = C.p, w.cd
            c = CV.of_class(w, C, 'finite', 1)
            pt = mk_point(w, C, c)
            r = w.ref(pt)
            w.take_panics()
            v = w.run(w.by_name(ENC % POINT(fam)), [r, cd.mgr.const(compress)])
            x, y = w_affine(c)
            S = esize(w, p)
            n = T.mod(y, p)
            top = w.M.bd.pow2((S - 1).scale(8)).scale(128)
            o = cd.odd(x, p)
            want = [(o, Bytes([('le', n + top, S)])), (~o, Bytes([('le', n, S)]))]
            encoding(ck, w, v, want)
            untouched(ck, w, C, r, pt, w.st)
            quiet(ck, w)
    for s in (None, 0, 1):
        w = World()
        with ck.case('decode, %s' % ('wrong length' if s is None else 'sign bit %d' % s), w):
            c30case(ck, w, s)
    ck.assume('d y^2 != a for all y (a square, d non-square: a complete twisted Edwards curve)')
    ck.rule('encode(P) = le(y) | parity(x) << top on ceil((bits(p)+1)/8) bytes; decode inverts it and rejects the rest')


def c30case(ck, w, s):
    fam = 'edwards'
    C = CV.Curve(w, fam)
    p, cd = C.p, w.cd
    K.square_roots(w, p)
    S = esize(w, p)
    if s is None:
        n = T.sym('len', 0, 2 ** 40)
        w.st.pc = ~cd.eq(n, S)
        buf = Bytes([('v', 'buf', ZERO, n)])
    else:
        t = T.sym('topbits', 0, 127)
        buf = Bytes([('v', 'buf', ZERO, S - 1), ('b', t + 128 * s)])
    want = []
    T.C.nonzero.setdefault(p, set()).add(C.prm['a'].single_gen().id)
    cd.zcache.clear()
    if s is not None:
        Y = P(T.C.gen('leval', ('buf', ZERO, S - 1), 0, None)) + t * w.M.bd.pow2((S - 1).scale(8))
        g = C.prm
        u, v = Y * Y - 1, g['d'] * Y * Y - g['a']
        q = T.flat(u * T._inv_poly(T.flat(v, p), p), p)
        if not cd.declare_nonzero(v, p):
            raise Unsupported('completeness')
        yin = cd.ge(p - Y - 1)
        ok = yin & ~cd.zero(v, p) & cd.square(q, p)
        cond = lambda c: cd.zero(c['y'] - Y * c['z'], p) & cd.zero(aff(c, 'x', p) ** 2 - q, p)
        if s:
            want = [(ok & ~cd.zero(q, p), None, lambda c: cond(c) & cd.odd(aff(c, 'x', p), p))]
        else:
            want = [(ok, None, lambda c: cond(c) & ~cd.odd(aff(c, 'x', p), p))]
    w.take_panics()
    r = decode_call(w, DEC % CURVE(fam), C.E, buf)
    decoded(ck, w, C, r, want)
    quiet(ck, w)
