"""Quadratic-field properties C08-C12."""
from .common import *
from . import primef as PF
from .primef import quiet, refuses, eqmod, equality

Q = 'redox_ecc::quadraticfield::Fp2'
QE = 'redox_ecc::quadraticfield::Fp2Elt'


def leaves(w, v, tid, seen=0):
    """sub-values of type tid in declaration order, through handles"""
    out = []
    if isinstance(v, Agg):
        if v.tag == tid:
            return [v]
        for x in v.f:
            out += leaves(w, x, tid, seen + 1)
    elif isinstance(v, Seq):
        for x in v.e:
            out += leaves(w, x, tid, seen + 1)
    elif isinstance(v, Un):
        ls = [(g, leaves(w, x, tid, seen + 1)) for g, x in v.alts]
        n = {len(l) for _, l in ls}
        if len(n) == 1:
            return [mkun([(g, l[i]) for g, l in ls], w.cd.mgr) for i in range(n.pop())]
        raise Unsupported('element with several shapes')
    return out


def comps(w, v):
    """the components of a quadratic-field element"""
    l = leaves(w, v, tn(w, FPE))
    if len(l) != 2:
        raise Unsupported('two components expected in %r' % (v,))
    return [num_of(w, x) for x in l]


def replace(w, v, tid, news):
    """v with its sub-values of type tid replaced in order"""
    if isinstance(v, Agg):
        if v.tag == tid:
            return news.pop(0)
        return Agg(v.tag, [replace(w, x, tid, news) for x in v.f])
    if isinstance(v, Seq):
        return Seq([replace(w, x, tid, news) for x in v.e])
    return v


def mk(w, F, a, b, st=None):
    """the element a + b i"""
    z = call(w, '<%s as redox_ecc::field::Field>::elt' % Q, F, ZERO, st=st)
    tid = tn(w, FPE)
    l = leaves(w, z, tid)
    if len(l) != 2:
        raise Unsupported('representation of quadratic-field elements')
    base = field_of_type(w, l[0], FP, st)
    news = [PF.mk_elt(w, base, x, st=st) for x in (a, b)]
    return replace(w, z, tid, news)


def mkq(w, p):
    return w.run(Q + '::new', [p])


def sameq(w, v, F, st):
    f = field_of_type(w, v, FP2, st)
    r = call(w, '<%s as std::cmp::PartialEq>::eq' % Q, f, F, st=st.copy())
    ok = isinstance(r, Bdd) and holds(w, r, st.pc)
    for x in leaves(w, v, tn(w, FPE)):
        b = field_of_type(w, x, FP, st)
        m = call(w, '<redox_ecc::primefield::Fp as redox_ecc::field::Field>::get_modulus', b, st=st.copy())
        m2 = call(w, '<%s as redox_ecc::field::Field>::get_modulus' % Q, F, st=st.copy())
        ok = ok and same(w, m, m2, st.pc)
    return ok


def is_elt(ck, w, v, want, p, F, key='value'):
    ck.need(v is not None, key + ': returns', w.I.panics)
    c = comps(w, v)
    for i, (x, y) in enumerate(zip(c, want)):
        ck.ob(eqmod(w, x, P(y), p, w.st.pc), '%s, component %d' % (key, i), 'got %r, want %r' % (x, y))
    ck.ob(sameq(w, v, F, w.st), key + ': belongs to the field', repr(v)[:300])


def setup(w, generic=False, minimum=3, residue=None):
    if generic:
        p = w.prime('p', 1, odd=False)
        T.C.primes.pop(p)
    else:
        p = w.prime('p', minimum, True, residue or (3, 4))
    return p, mkq(w, p)


def c08(ck):
    """Abstract interpretation of every Fp2 ring operation over symbolic components and modulus."""
    prog = program()
    ops = operators(prog)

    def run(fm, f, n, extra=()):
        w = World()
        with ck.case(fm.label(), w):
            p, F = setup(w, True)
            xs = [(w.residue('a%d' % i, p), w.residue('b%d' % i, p)) for i in range(n)]
            vals = [mk(w, F, *x) for x in xs] + list(extra)
            v = apply(w, fm, vals, w.st)
            is_elt(ck, w, v, f(*xs), p, F)
            quiet(ck, w)
    mul = lambda x, y: (x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0])
    for op, f, floor in (('add', lambda x, y: (x[0] + y[0], x[1] + y[1]), 4),
                         ('sub', lambda x, y: (x[0] - y[0], x[1] - y[1]), 4), ('mul', mul, 4)):
        forms = ops.get((op, FP2E, FP2E), [])
        ck.floor('forms of Fp2Elt %s Fp2Elt' % op, len(forms), floor)
        for fm in forms:
            run(fm, f, 2)
    forms = ops.get(('neg', FP2E), [])
    ck.floor('forms of -Fp2Elt', len(forms), 2)
    for fm in forms:
        run(fm, lambda x: (-x[0], -x[1]), 1)
    forms = ops.get(('bitxor', FP2E, 'u32'), [])
    ck.floor('forms of Fp2Elt ^ u32', len(forms), 2)
    for fm in forms:
        run(fm, lambda x: mul(x, x), 1, (P(2),))
    w = World()
    with ck.case('==', w):
        p, F = setup(w, True)
        a, b, c, d = [w.residue(x, p) for x in 'abcd']
        equality(ck, w, FP2E, mk(w, F, a, b), mk(w, F, c, d), w.cd.eq(a, c) & w.cd.eq(b, d))
    for nm, want in (('zero', (0, 0)), ('one', (1, 0))):
        w = World()
        with ck.case('Field::' + nm, w):
            p, F = setup(w, True)
            v = call(w, '<%s as redox_ecc::field::Field>::%s' % (Q, nm), F)
            is_elt(ck, w, v, [T.mod(P(x), p) for x in want], p, F)
            quiet(ck, w)
    w = World()
    with ck.case('Field::elt', w):
        p, F = setup(w, True)
        x = T.sym('n')
        v = call(w, '<%s as redox_ecc::field::Field>::elt' % Q, F, x)
        is_elt(ck, w, v, (x, ZERO), p, F)
        quiet(ck, w)
    ck.rule('components of every result equal the formulas of GF(p)[i]/(i^2+1), canonical, same field')


def c09(ck):
    """Inversion and division in Fp2 for a symbolic prime p = 3 mod 4."""
    prog = program()
    ops = operators(prog)
    cases = [(f, lambda x: (P(1), x)) for f in ops.get(('div', 'u32', FP2E), [])]
    ck.floor('forms of u32 / Fp2Elt', len(cases), 1)
    k = ops.get(('bitxor', FP2E, 'i32'), [])
    ck.floor('forms of Fp2Elt ^ i32', len(k), 2)
    cases += [(f, lambda x: (x, P(-1))) for f in k]
    for fm, arg in cases:
        w = World()
        with ck.case(fm.label(), w):
            p, F = setup(w)
            a, b = w.residue('a', p), w.residue('b', p)
            v = apply(w, fm, arg(mk(w, F, a, b)), w.st)
            ck.need(v is not None, 'returns', w.I.panics)
            c = comps(w, v)
            z = w.cd.zero(a, p) & w.cd.zero(b, p)
            good = w.cd.F
            for (g0, x), (g1, y) in ((s, t) for s in alts(w, c[0]) for t in alts(w, c[1])):
                one = w.cd.zero(a * x - b * y - 1, p) & w.cd.zero(a * y + b * x, p)
                nil = w.cd.zero(x, p) & w.cd.zero(y, p)
                good = good | (g0 & g1 & w.cd.mgr.ite(z, nil, one))
            ck.ob(anis(w, good, w.st.pc, p, [(a, b)]), 'x * (1/x) = 1 and 1/0 = 0', 'got %r' % (c,))
            ck.ob(sameq(w, v, F, w.st), 'belongs to the field')
            quiet(ck, w)
    forms = ops.get(('div', FP2E, FP2E), [])
    ck.floor('forms of Fp2Elt / Fp2Elt', len(forms), 4)
    for fm in forms:
        w = World()
        with ck.case(fm.label(), w):
            p, F = setup(w)
            a, b, c, d = (w.residue(s, p) for s in 'abcd')
            v = apply(w, fm, (mk(w, F, a, b), mk(w, F, c, d)), w.st)
            n = T.inv(c * c + d * d, p)
            is_elt(ck, w, v, ((a * c + b * d) * n, (b * c - a * d) * n), p, F, 'a * (1/b)')
            quiet(ck, w)
    PF.shorthand(ck, ops, FP2E, lambda w, p: mk(w, mkq(w, p), w.residue('a', p), w.residue('b', p)))
    ck.rule('1/x multiplies with x to one (zero inverts to zero), a/b = a * (1/b), other shorthands refused; '
            'a^2+b^2 = 0 only for a = b = 0 because -1 is a non-residue')


def alts(w, v):
    return v.alts if isinstance(v, Un) else ((w.cd.T, v),)


def anis(w, cond, pc, p, pairs):
    """cond under pc and the fact that a^2 + b^2 is anisotropic (p = 3 mod 4)"""
    for a, b in pairs:
        pc = pc & (~w.cd.zero(a * a + b * b, p) | (w.cd.zero(a, p) & w.cd.zero(b, p)))
    return holds(w, cond, pc)


def c12(ck):
    """Byte strings (segment domain), integer embedding and text form of Fp2 elements."""
    for o in ('be', 'le'):
        w = World()
        with ck.case('to_bytes_' + o, w):
            p, F = setup(w, True)
            a, b = w.residue('a', p), w.residue('b', p)
            v = call(w, '<%s as redox_ecc::ops::Serialize>::to_bytes_%s' % (QE, o), mk(w, F, a, b))
            ck.need(v is not None, 'returns', w.I.panics)
            v = w.value(v)
            size = T.floordiv(w.M.bd.bits(p) + 7, 8)
            for g, x in alts(w, v):
                by = PF.bytes_obj(x)
                pc = w.st.pc & g
                ck.ob(same(w, w.M.seq_len(by, w.st), size.scale(2), pc), 'twice the fixed width', repr(by))
                for i, c in enumerate((a, b)):
                    part = w.M.bd.sub(by, size.scale(i), size, pc)
                    val = w.M.bd.value(part, o == 'be', pc)
                    ck.ob(same(w, val, c, pc), 'component %d in its half' % i, '%r denotes %r' % (part, val))
            quiet(ck, w)
        w = World()
        with ck.case('from_bytes_%s of to_bytes_%s' % (o, o), w):
            p, F = setup(w, True)
            a, b = w.residue('a', p), w.residue('b', p)
            v = call(w, '<%s as redox_ecc::ops::Serialize>::to_bytes_%s' % (QE, o), mk(w, F, a, b))
            ck.need(v is not None, 'returns', w.I.panics)
            r = PF.decode_call(w, '<%s as redox_ecc::ops::Deserialize>::from_bytes_%s' % (Q, o), F, v)
            ck.need(r is not None, 'decoder returns', w.I.panics)
            ok, val, err = PF.result_parts(w, r)
            ck.ob(holds(w, ok, w.st.pc), 'never an error')
            ck.need(val is not None, 'a value')
            is_elt(ck, w, val, (a, b), p, F)
            quiet(ck, w)
        w = World()
        with ck.case('from_bytes_%s of another length' % o, w):
            p, F = setup(w, True)
            n = T.sym('len', 0, 2 ** 40)
            size = T.floordiv(w.M.bd.bits(p) + 7, 8)
            w.st.pc = ~w.cd.eq(n, size.scale(2))
            r = PF.decode_call(w, '<%s as redox_ecc::ops::Deserialize>::from_bytes_%s' % (Q, o), F,
                               Bytes([('v', 'buf', ZERO, n)]))
            ck.need(r is not None, 'returns', w.I.panics)
            ok, val, err = PF.result_parts(w, r)
            ck.ob(holds(w, ~ok, w.st.pc) and holds(w, err, w.st.pc), 'always an error', repr(r)[:300])
            quiet(ck, w)
        w = World()
        with ck.case('from_bytes_%s of the right length' % o, w):
            p, F = setup(w, True)
            size = T.floordiv(w.M.bd.bits(p) + 7, 8)
            buf = Bytes([('v', 'buf', ZERO, size.scale(2))])
            r = PF.decode_call(w, '<%s as redox_ecc::ops::Deserialize>::from_bytes_%s' % (Q, o), F, buf)
            ck.need(r is not None, 'returns', w.I.panics)
            ok, val, err = PF.result_parts(w, r)
            ck.ob(holds(w, ok, w.st.pc), 'accepted')
            ck.need(val is not None, 'a value')
            want = [w.M.bd.value(w.M.bd.sub(buf, size.scale(i), size, w.st.pc), o == 'be', w.st.pc) for i in (0, 1)]
            is_elt(ck, w, val, want, p, F)
            quiet(ck, w)
    n = 0
    for ty, (lo, hi) in PF.INT_TYPES.items():
        w = World()
        with ck.case('from ' + ty, w):
            p, F = setup(w, True)
            x = T.sym('n', lo, hi)
            v = call(w, '<%s as redox_ecc::ops::FromFactory<%s>>::from' % (Q, ty), F, x)
            is_elt(ck, w, v, (x, ZERO), p, F)
            quiet(ck, w)
            n += 1
    ck.floor('integer factories', n, 8)
    PF.lifted(ck, 'Fp2', 'lift2_', mkq, lambda w, v, x, p, F: is_elt(ck, w, v, (x, ZERO), p, F))
    labels = [(l, l2) for l, _, _ in PF.texts('s') for l2, _, _ in PF.texts('t')]
    for la, lb in labels:
        w = World()
        with ck.case('from text "%s,%s"' % (la, lb), w):
            p, F = setup(w, True)
            ta = [t for t in PF.texts('s') if t[0] == la][0]
            tb = [t for t in PF.texts('t') if t[0] == lb][0]
            tup = lambda t: () if isinstance(t[1], Str) else t[1]
            v = call(w, '<%s as redox_ecc::ops::FromFactory<&str>>::from' % Q, F, mkstr(tup(ta) + (',',) + tup(tb)))
            is_elt(ck, w, v, (ta[2], tb[2]), p, F)
            quiet(ck, w)
    for lab, parts in (('one component', 1), ('three components', 3), ('four components', 4)):
        for px, radix in PF.PREFIX:
            w = World()
            with ck.case('text of %s%s' % (lab, ' in radix %d' % radix if px else ''), w):
                p, F = setup(w, True)
                tx = ()
                for i in range(parts):
                    d = ('num', 't%d' % i, radix, T.sym('t%d_value' % i, 0)) + (() if px else (1, 1))
                    tx += ((',',) if i else ()) + (px, d)
                v = call(w, '<%s as redox_ecc::ops::FromFactory<&str>>::from' % Q, F, mkstr(tx))
                ck.ob(v is None and bool(w.I.panics), 'is refused', repr(v)[:300])
    ck.rule('encoding = fixed-width a then b; decoding inverts it and rejects exactly the other lengths; '
            'integers embed as n + 0 i; "a,b" is a + b i')
