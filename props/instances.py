"""Shipped parameters and identifiers (C39), rational maps and isogenies (C36-C38)."""
from .common import *
from . import primef as PF
from . import curves as CV
from . import std_curves as S
from .primef import quiet, alts_of
from .curves import cmeth, CURVE, POINT, NAMES, coord_alts, call


def ids(prog):
    """public curve identifiers: static name -> (static, family)"""
    out = {}
    for n, s in prog.statics.items():
        t = prog.tn[s['t']]
        m = {'instances::edw::EdCurveID': 'edwards', 'instances::mont::MtCurveID': 'montgomery',
             'instances::weier::WeCurveID': 'weierstrass'}.get(t)
        if m is None:
            h = [f for f in prog.crate_fns() if f.name.startswith('<redox_ecc::%s as redox_ecc::instances::GetCurve>::get' % t)]
            if not h:
                continue
            m = prog.tn[h[0].locals[0]].split('::')[0]
        out[n.split('::')[-1]] = (n, m)
    return out


def get_curve(w, name):
    full, fam = ids(w.prog)[name]
    st = w.prog.statics[full]
    fn = [f for f in w.prog.crate_fns() if f.blocks and f.name == '<redox_ecc::%s as redox_ecc::instances::GetCurve>::get' % w.prog.tn[st['t']]]
    if len(fn) != 1:
        raise Unsupported('GetCurve::get of %s' % w.prog.tn[st['t']])
    E = w.run(fn[0], [Ptr(('static', full))])
    if E is None:
        raise Unsupported('get() always panics: %r' % (w.I.panics,))
    return E, fam


def const_of(w, v):
    for g, x in alts_of(w, v):
        if isinstance(x, Poly) and (g & w.st.pc) == w.st.pc:
            return x.const()
    return None


def c39(ck):
    """Every shipped identifier evaluated to its curve and compared, parameter by parameter, with the published table."""
    prog = program()
    have = ids(prog)
    ck.floor('shipped curves', len([n for n in S.CURVES if n in have]), len(S.CURVES))
    for n in S.CURVES:
        with ck.case(n + ' table'):
            for what, ok in S.consistent(n):
                ck.ob(ok, what)
    for n, c in S.CURVES.items():
        w = World()
        with ck.case(n, w):
            E, fam = get_curve(w, n)
            ck.need(fam == c['fam'], 'curve model', fam)
            F = call(w, cmeth(fam, 'get_field'), E)
            p = const_of(w, call(w, '<redox_ecc::primefield::Fp as redox_ecc::field::Field>::get_modulus', F))
            ck.need(p == c['p'], 'prime', p)
            ck.ob(const_of(w, call(w, cmeth(fam, 'get_order'), E)) == c['r'], 'order')
            ck.ob(const_of(w, call(w, cmeth(fam, 'get_cofactor'), E)) == c['h'], 'cofactor')
            G = call(w, cmeth(fam, 'get_generator'), E)
            ck.need(G is not None, 'the generator is returned', w.I.panics)
            for g, cc in coord_alts(w, fam, G, w.st.pc):
                v = {k: x.const() for k, x in cc.items()}
                ck.need(None not in v.values() and v['z'] % p, 'generator has known coordinates', cc)
                zi = pow(v['z'], -1, p)
                ck.ob((v['x'] * zi - c['gx']) % p == 0, 'generator x', v)
                ck.ob((v['y'] * zi - c['gy']) % p == 0, 'generator y', v)
                if fam == 'edwards':
                    ck.ob((v['t'] * v['z'] - v['x'] * v['y']) % p == 0, 'generator t', v)
            names = [(nm, prog.tn[t]) for nm, t in prog.types[prog.type_id(CURVE(fam))]['v'][0]['f']]
            quiet(ck, w)
        w = World()
        with ck.case(n + ' coefficients', w):
            E, fam = get_curve(w, n)
            C = CV.Curve.__new__(CV.Curve)
            C.__dict__.update(w=w, fam=fam, E=E, p=P(c['p']), prm={k: P(c[k] % c['p']) for k in 'abd' if k in c})
            co = {k: w.residue('c' + k, C.p) for k in NAMES[fam]}
            pt = CV.mk_point(w, C, co)
            v = call(w, cmeth(fam, 'is_on_curve'), E, pt)
            ck.need(isinstance(v, Bdd), 'membership is decided', w.I.panics)
            want = w.cd.T
            for q in C.equation(co):
                want = want & w.cd.zero(q, C.p)
            ck.ob(holds(w, v.iff(want), w.st.pc), 'the curve equation', v)
        if fam == 'montgomery':
            with ck.case(n + ' completeness'):
                s = shipped_s(n)
                ck.ob(s is not None and S.complete(c, s), 'no point has y = s', s)
    extra = [n for n in have if n not in S.CURVES]
    ck.count('identifiers without a published entry', len(extra))
    ck.rule('prime, coefficients, generator, order, cofactor of every identifier equal the published ones; the published '
            'ones are consistent and meet the completeness conditions')
    ck.assume('primality by Miller-Rabin with 16 fixed bases; point counts by Hasse interval and order of the generator')


def shipped_s(n):
    w = World()
    full, fam = ids(w.prog)[n]
    v = w.M.val(Ptr(('static', full)), w.st)
    while isinstance(v, (Agg, Ptr)):
        if isinstance(v, Ptr):
            v = w.M.val(v, w.st)
            continue
        ty = w.prog.types[v.tag]
        fs = [nm for nm, _ in ty['v'][0]['f']]
        if 's' in fs:
            x = v.f[fs.index('s')]
            x = w.M.val(x, w.st) if isinstance(x, Ptr) else x
            return int(x.s, 0) if isinstance(x, Str) else None
        v = v.f[0]
    return None
