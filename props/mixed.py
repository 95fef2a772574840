"""C02: operands of different structures are refused, never combined."""
from .common import *
from engine.report import Abort
from . import primef as PF, quad as QQ, scalar as SC, curves as CV
from .primef import quiet, alts_of


def refused(ck, w, v, st, cond, key):
    gone = v is None or theory.refuted(w.cd, st.pc & cond)
    ck.ob(gone, key, 'returns %r when %r' % (str(v)[:200], st.pc & cond))
    ck.ob(bool(w.I.panics), key + ' by a panic')


def accepted(ck, w, v, st, key, under=None):
    ck.ob(v is not None, key, w.I.panics)
    bad = [q for q in w.I.panics if not theory.refuted(w.cd, q.guard & (under or w.cd.T))]
    ck.ob(not bad, key + ' (no panic)', bad)


def is_false(ck, w, v, key, pc):
    ck.ob(isinstance(v, Bdd) and holds(w, ~v, pc), key, v)
    ck.ob(not w.I.panics, key + ' (no panic)', w.I.panics)


def two_moduli(w):
    p = w.prime('p', 1, odd=False)
    q = w.prime('q', 1, odd=False)
    T.C.primes.pop(p)
    T.C.primes.pop(q)
    return p, q


def c02(ck):
    """Every operator form is evaluated on operands of two symbolic structures under the assumption that
    the structures differ (no value may come out) and on separately built equal structures (no panic)."""
    prog = program()
    ops = operators(prog)
    seen = set()
    n = 0
    for kind in ('Fp', 'Fp2'):
        tyn = FPE if kind == 'Fp' else FP2E
        fty = 'redox_ecc::' + FP if kind == 'Fp' else QQ.Q
        w = World()
        with ck.case('%s ==' % fty, w):
            p, q = two_moduli(w)
            make = 'redox_ecc::primefield::Fp::new' if kind == 'Fp' else QQ.Q + '::new'
            F, G = w.run(make, [p]), w.run(make, [q])
            v = call(w, '<%s as std::cmp::PartialEq>::eq' % fty, F, G)
            ck.ob(isinstance(v, Bdd) and holds(w, v.iff(w.cd.eq(p, q)), w.st.pc), 'true exactly for equal moduli', v)
            negation(ck, w, fty, v, F, G)
            ck.ob(not w.I.panics, 'no panic', w.I.panics)
        for op in ('add', 'sub', 'mul', 'div'):
            forms = ops.get((op, tyn, tyn), [])
            ck.floor('forms of %s %s' % (op, tyn), len(forms), 4)
            for fm in forms:
                seen.add(fm.fn.id)
                n += 1
                w = World()
                with ck.case('%s, different fields' % fm.label(), w):
                    p, q = two_moduli(w)
                    x, y = elements(w, kind, p, q)
                    w.st.pc = ~w.cd.eq(p, q)
                    w.take_panics()
                    v = apply(w, fm, (x, y), w.st)
                    refused(ck, w, v, w.st, w.cd.T, 'refused')
                w = World()
                with ck.case('%s, one field built twice' % fm.label(), w):
                    p = w.prime('p', 3, True, (3, 4))
                    x, y = elements(w, kind, p, p)
                    w.take_panics()
                    v = apply(w, fm, (x, y), w.st)
                    accepted(ck, w, v, w.st, 'not refused')
        w = World()
        with ck.case('%s ==, different fields' % tyn, w):
            p, q = two_moduli(w)
            x, y = elements(w, kind, p, q)
            w.st.pc = ~w.cd.eq(p, q)
            w.take_panics()
            v = call(w, '<redox_ecc::%s as std::cmp::PartialEq>::eq' % tyn, x, y)
            is_false(ck, w, v, 'false', w.st.pc)
            negation(ck, w, 'redox_ecc::' + tyn if not tyn.startswith('redox_ecc') else tyn, v, x, y)
        w = World()
        with ck.case('%s ==, one field built twice' % tyn, w):
            p, _ = two_moduli(w)
            x, _ = elements(w, kind, p, p)
            _, y = elements(w, kind, p, p, same=True)
            v = call(w, '<redox_ecc::%s as std::cmp::PartialEq>::eq' % tyn, x, y)
            ck.ob(isinstance(v, Bdd) and holds(w, v, w.st.pc), 'true for equal values', v)
            ck.ob(not w.I.panics, 'no panic', w.I.panics)
    SC.learn(ck)
    for fam in SC.FAMS:
        sc, pt = SC.sty(fam), CV.POINT(fam)
        for op in ('add', 'sub', 'mul', 'div'):
            forms = ops.get((op, sc, sc), [])
            ck.floor('forms of %s %s' % (op, sc), len(forms), 4)
            for fm in forms:
                seen.add(fm.fn.id)
                n += 1
                w = World()
                with ck.case('%s, different orders' % fm.label(), w):
                    r, q = two_moduli(w)
                    x = SC.mk_scalar(w, fam, w.residue('k', r), r)
                    y = SC.mk_scalar(w, fam, w.residue('l', q), q)
                    if op == 'div':
                        w.st.pc = w.cd.ge(q - 2) & w.cd.ge(r - 2)
                    w.st.pc = w.st.pc & ~w.cd.eq(r, q)
                    w.take_panics()
                    v = apply(w, fm, (x, y), w.st)
                    refused(ck, w, v, w.st, w.cd.T, 'refused')
        w = World()
        with ck.case('%s ==, different orders' % sc, w):
            eqn = '<redox_ecc::%s as std::cmp::PartialEq>::eq' % sc
            if not prog.byname.get(eqn):
                raise Abort()
            r, q = two_moduli(w)
            x = SC.mk_scalar(w, fam, w.residue('k', r), r)
            y = SC.mk_scalar(w, fam, w.residue('l', q), q)
            w.st.pc = ~w.cd.eq(r, q)
            v = call(w, eqn, x, y)
            is_false(ck, w, v, 'false', w.st.pc)
            negation(ck, w, 'redox_ecc::' + sc, v, x, y)
        names = [a for a, _ in prog.types[prog.type_id(CV.ty(fam, 'curve::Params'))]['v'][0]['f'] if a != 'name']
        forms = [fm for op in ('add', 'sub') for fm in ops.get((op, pt, pt), [])]
        ck.floor('forms of point addition and subtraction, ' + fam, len(forms), 8)
        for diff in names:
            w = World()
            with ck.case('%s, %s differs' % (fam, diff), w):
                C, D = two_curves(w, fam, diff)
                p1 = CV.mk_point(w, C, {k: w.residue('c' + k, C.p) for k in CV.NAMES[fam]})
                p2 = CV.mk_point(w, D, {k: w.residue('d' + k, D.p) for k in CV.NAMES[fam]})
                w.take_panics()
                for fm in forms:
                    seen.add(fm.fn.id)
                    n += 1
                    with ck.case(fm.label(), w):
                        st = w.fork()
                        v = apply(w, fm, (p1, p2), st)
                        refused(ck, w, v, st, w.cd.T, 'refused')
                        w.take_panics()
                with ck.case('==', w):
                    st = w.fork()
                    v = call(w, '<redox_ecc::%s as std::cmp::PartialEq>::eq' % pt, p1, p2, st=st)
                    is_false(ck, w, v, 'false', st.pc)
                    negation(ck, w, 'redox_ecc::' + pt, v, p1, p2, st=w.fork())
        w = World()
        with ck.case('%s, one curve built twice' % fam, w):
            C = CV.setup(w, fam)
            D = CV.Curve2(w, C, None)
            P1, P2 = CV.affine(w, C, 1), CV.affine(w, C, 2)
            p1, p2 = CV.mk_point(w, C, P1), CV.mk_point(w, D, P2)
            w.take_panics()
            for op in ('add', 'sub'):
                base = CV.nowhere_zero(w, C, CV.law(C, P1, P2 if op == 'add' else CV.negate(C, P2)))
                for fm in ops.get((op, pt, pt), []):
                    with ck.case(fm.label(), w):
                        st = w.fork()
                        st.pc = st.pc & base
                        v = apply(w, fm, (p1, p2), st)
                        accepted(ck, w, v, st, 'not refused', base)
                        w.take_panics()
        forms = [(fm, 0) for fm in ops.get(('mul', pt, sc), [])] + [(fm, 1) for fm in ops.get(('mul', sc, pt), [])]
        ck.floor('forms of point and scalar, ' + fam, len(forms), 7)
        for fm, swap in forms:
            seen.add(fm.fn.id)
            n += 1
            w = World()
            with ck.case('%s, another order' % fm.label(), w):
                C = CV.setup(w, fam)
                p1 = CV.mk_point(w, C, CV.affine(w, C, 1))
                q = T.sym('q', 1)
                s = SC.mk_scalar(w, fam, w.residue('k', q), q)
                w.st.pc = ~w.cd.eq(q, C.prm['r'])
                w.take_panics()
                v = apply(w, fm, (s, p1) if swap else (p1, s), w.st)
                refused(ck, w, v, w.st, w.cd.T, 'refused')
    # binary operators on the library's own types that the cases above did not cover
    own = {FPE, FP2E} | {SC.sty(f) for f in SC.FAMS} | {CV.POINT(f) for f in CV.FAMS}
    rest = [fm.label() for k, fs in ops.items() for fm in fs
            if len(k) == 3 and k[1] in own and k[2] in own and fm.fn.id not in seen]
    ck.ob(not rest, 'every binary operator between two structured operands is analysed', rest)
    ck.floor('operator forms on different structures', n, 100)
    ck.rule('no value is returned when the structures differ; equal structures built separately are not refused; '
            '== across structures is false')


def elements(w, kind, p, q, same=False):
    if kind == 'Fp':
        return (PF.mk_elt(w, mk_field(w, p), w.residue('x', p)),
                PF.mk_elt(w, mk_field(w, q), w.residue('x' if same else 'y', q)))
    return (QQ.mk(w, QQ.mkq(w, p), w.residue('a', p), w.residue('b', p)),
            QQ.mk(w, QQ.mkq(w, q), w.residue('a' if same else 'c', q), w.residue('b' if same else 'd', q)))


def two_curves(w, fam, diff):
    C = CV.Curve(w, fam)
    if diff == 'p':
        q = w.prime('q', 5)
        D = CV.Curve(w, fam, p=q, order=C.prm['r'], tag="'", h=C.prm['h'])
        w.st.pc = ~w.cd.eq(C.p, q)
        return C, D
    D = CV.Curve2(w, C, diff)
    w.st.pc = ~w.cd.eq(C.prm[diff], D.prm[diff])
    return C, D
