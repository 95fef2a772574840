"""C42: text rendering, by interpreting every Display implementation into a sequence of literals and numerals."""
import re
from .common import *
from . import primef as PF
from . import curves as CV
from . import scalar as SC
from . import instances as IN
from . import std_curves as S
from .primef import quiet, alts_of
from .curves import FAMS, POINT, CURVE, NAMES, CLASSES, cmeth, mk_point

COEFFS = {'weierstrass': 'ab', 'montgomery': 'ab', 'edwards': 'ad'}


def shown(ck, w, v, tyname):
    """[(guard, [literal | integer term])]: what Display writes for v"""
    fn = w.by_name('<redox_ecc::%s as std::fmt::Display>::fmt' % tyname)
    o = w.I.alloc(w.st, Opq('fmt'), 'in')
    w.take_panics()
    r = w.run(fn, [w.ref(v), Ptr(o)])
    ck.need(r is not None, 'returns', w.I.panics)
    ok, _, _ = PF.result_parts(w, r)
    ck.ob(holds(w, ok, w.st.pc), 'reports success')
    quiet(ck, w)
    out = []
    for g, x in alts_of(w, w.st.mem[o]):
        if (g & w.st.pc).is_false():
            continue
        acc = [(g, [])]
        for p in x.a:
            if isinstance(p, str):
                for _, l in acc:
                    if l and isinstance(l[-1], str):
                        l[-1] += p
                    else:
                        l.append(p)
            elif p[0] == 'dec':
                for _, l in acc:
                    l.append(p[1])
            elif p[0] == 'alt':
                acc = [(g0 & g1, l + [y]) for g0, l in acc for g1, y in p[1].alts if not (g0 & g1 & w.st.pc).is_false()]
            else:
                raise Unsupported('piece %r' % (p,))
        out += acc
    # constants become part of the literals when rendered: split them again
    return [(g, split(l)) for g, l in out]


def split(l):
    out = []
    for x in l:
        if isinstance(x, str):
            if out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
        else:
            out.append(x)
    return out


def numbers(ck, w, v, tyname, want, names=None, exact=None):
    """Display shows the integers of want in order, each after its own name, in decimal"""
    alts = shown(ck, w, v, tyname)
    ok = w.cd.F
    why = []
    for g, l in alts:
        nums = [x for x in l if not isinstance(x, str)]
        if len(nums) != len(want):
            why.append('%d numbers in %s' % (len(nums), l))
            continue
        e = g
        for a, b in zip(nums, want):
            e = e & w.cd.eq(a, b)
        if exact is not None:
            if [x if isinstance(x, str) else None for x in l] != exact:
                why.append('literals %s' % l)
                continue
        elif names is not None and not labelled(l, names):
            why.append('labels %s' % l)
            continue
        elif not separated(l):
            why.append('numerals run together %s' % l)
            continue
        ok = ok | e
    ck.ob(holds(w, ok, w.st.pc), 'shows %s in order' % (', '.join(names) if names else 'the value'),
          '; '.join(why) or '%s' % [l for _, l in alts][:2])


def separated(l):
    for i, x in enumerate(l):
        if isinstance(x, str):
            if i and x[0].isalnum() or i + 1 < len(l) and (x[-1].isalnum() or x[-1] == '-'):
                return False
        elif i and not isinstance(l[i - 1], str):
            return False
    return True


def labelled(l, names):
    if not separated(l):
        return False
    k = 0
    for i, x in enumerate(l):
        if isinstance(x, str):
            continue
        if i == 0 or not re.search(r'(^|[^A-Za-z])%s[^A-Za-z0-9]*$' % names[k], l[i - 1]):
            return False
        k += 1
    return True


def c42(ck):
    """Display of every type on symbolic values, plus rendering and parsing back."""
    prog = program()
    have = {m.group(1) for f in prog.crate_fns() for m in [re.match(r'^<redox_ecc::(.*) as std::fmt::Display>::fmt$', f.name)] if m}
    known = {FP, FPE, FP2, FP2E} | {CURVE(f) for f in FAMS} | {POINT(f) for f in FAMS} | \
        {'%s::scalar::Scalar' % f for f in FAMS}
    idt = {prog.tn[prog.statics[n]['t']] for n, _ in IN.ids(prog).values()}
    ck.ob(known <= have, 'every value type is displayable', 'missing %s' % sorted(known - have))
    ck.ob(idt <= have, 'every identifier is displayable', 'missing %s' % sorted(idt - have))
    w = World()
    with ck.case('prime-field element', w):
        p, F = PF.prime_field(w, 3)
        x = w.residue('x', p)
        numbers(ck, w, PF.mk_elt(w, F, x), FPE, [x], exact=[None])
    w = World()
    with ck.case('prime-field element rendered and parsed back', w):
        p, F = PF.prime_field(w, 3)
        x = w.residue('x', p)
        a = PF.mk_elt(w, F, x)
        fn = w.by_name('<redox_ecc::%s as std::fmt::Display>::fmt' % FPE)
        o = w.I.alloc(w.st, Opq('fmt'), 'in')
        w.take_panics()
        ck.need(w.run(fn, [w.ref(a), Ptr(o)]) is not None, 'renders', w.I.panics)
        for g, t in alts_of(w, w.st.mem[o]):
            st = w.fork()
            st.pc = st.pc & g
            if st.pc.is_false():
                continue
            v = call(w, '<redox_ecc::primefield::Fp as redox_ecc::ops::FromFactory<&str>>::from', F, mkstr(tuple(t.a)), st=st)
            ck.need(v is not None, 'parses', w.I.panics)
            ck.ob(same(w, num_of(w, v), x, st.pc), 'the same element', repr(v)[:300])
            quiet(ck, w)
    w = World()
    with ck.case('prime field', w):
        p, F = PF.prime_field(w, 3)
        numbers(ck, w, F, FP, [p])
    w = World()
    with ck.case('quadratic-field element', w):
        p, F2, (a, b) = quad_elt(w)
        numbers(ck, w, F2[1], FP2E, [a, b], exact=[None, '+i*', None])
    w = World()
    with ck.case('quadratic field', w):
        p, F2, _ = quad_elt(w)
        numbers(ck, w, F2[0], FP2, [p])
    for fam in FAMS:
        w = World()
        with ck.case(fam + ' scalar', w):
            r = T.sym('r', 2)
            k = w.residue('k', r)
            numbers(ck, w, SC.mk_scalar(w, fam, k, r), '%s::scalar::Scalar' % fam, [k], exact=[None])
        w = World()
        with ck.case(fam + ' curve', w):
            C = CV.Curve(w, fam)
            numbers(ck, w, C.E, CURVE(fam), [C.prm[k] for k in COEFFS[fam]], names=COEFFS[fam])
        w = World()
        with ck.case(fam + ' point', w):
            C = CV.Curve(w, fam)
            c = {k: w.residue('c' + k, C.p) for k in NAMES[fam]}
            order = [n for n in 'xytz' if n in c]
            numbers(ck, w, mk_point(w, C, c), POINT(fam), [c[n] for n in order], names=order)
    for n, (full, fam) in sorted(IN.ids(prog).items()):
        w = World()
        with ck.case('identifier ' + n, w):
            fn = w.by_name('<redox_ecc::%s as std::fmt::Display>::fmt' % prog.tn[prog.statics[full]['t']])
            o = w.I.alloc(w.st, Opq('fmt'), 'in')
            w.take_panics()
            ck.need(w.run(fn, [Ptr(('static', full)), Ptr(o)]) is not None, 'returns', w.I.panics)
            quiet(ck, w)
            t = w.st.mem[o]
            s = ''.join(t.a) if isinstance(t, Opq) and all(isinstance(x, str) for x in t.a) else repr(t)
            ck.ob(plain(s) == plain(n), 'shows its own name', repr(s))
    ck.rule('interpretation of each Display implementation into literals and numerals; numerals are compared with the '
            'canonical values, in order and under their labels')


def plain(s):
    return re.sub(r'[^a-z0-9]', '', s.lower())


def quad_elt(w):
    from . import quad as Q
    p, F2 = Q.setup(w)
    a, b = w.residue('a', p), w.residue('b', p)
    return p, (F2, Q.mk(w, F2, a, b)), (a, b)
