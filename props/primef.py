"""Prime-field properties C01-C07."""
from .common import *


def c01(ck):
    """Abstract interpretation of every operator implementation on FpElt over residues modulo a
    symbolic modulus p >= 1 (exact polynomial domain)."""
    prog = program()
    ops = operators(prog)
    n = 0
    spec = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b}
    for op, f in spec.items():
        forms = ops.get((op, FPE, FPE), [])
        ck.floor('forms of FpElt %s FpElt' % op, len(forms), 4)
        for fm in forms:
            n += binary(ck, fm, f)
    forms = ops.get(('neg', FPE), [])
    ck.floor('forms of -FpElt', len(forms), 2)
    for fm in forms:
        binary(ck, fm, lambda a: -a, 1)
    forms = ops.get(('bitxor', FPE, 'u32'), [])
    ck.floor('forms of FpElt ^ u32', len(forms), 2)
    for fm in forms:
        binary(ck, fm, lambda a: a * a, 1, (P(2),))
    w = World()
    with ck.case('Field::elt', w):
        p = w.prime('p', 1, odd=False)
        T.C.primes.pop(p)
        F = mk_field(w, p)
        x = T.sym('n')
        v = mk_elt(w, F, x)
        ck.need(v is not None, 'returns')
        canonical(ck, w, v, x, p, F)
        ck.ob(not w.I.panics, 'never refuses', w.I.panics)
    for nm, want in (('zero', ZERO), ('one', ONE)):
        w = World()
        with ck.case('Field::' + nm, w):
            p = w.prime('p', 1, odd=False)
            T.C.primes.pop(p)
            F = mk_field(w, p)
            v = call(w, '<redox_ecc::primefield::Fp as redox_ecc::field::Field>::' + nm, F)
            canonical(ck, w, v, want, p, F)
    w = World()
    with ck.case('==', w):
        p = w.prime('p', 1, odd=False)
        T.C.primes.pop(p)
        F = mk_field(w, p)
        a, b = w.residue('a', p), w.residue('b', p)
        equality(ck, w, FPE, mk_elt(w, F, a), mk_elt(w, F, b), w.cd.eq(a, b))
    ck.rule('result residue equals the ring operation on the operand residues, in [0,p), same field')


def equality(ck, w, tyn, x, y, want):
    """== on x and y answers exactly `want`"""
    w.take_panics()
    v = call(w, '<redox_ecc::%s as std::cmp::PartialEq>::eq' % tyn, x, y)
    ck.need(isinstance(v, Bdd), 'returns', w.I.panics)
    ck.ob(holds(w, v.iff(want), w.st.pc), 'true exactly for equal values', 'got %r want %r' % (v, want))
    negation(ck, w, 'redox_ecc::' + tyn if not tyn.startswith('redox_ecc') else tyn, v, x, y)
    quiet(ck, w)


def canonical(ck, w, v, x, p, F, st=None):
    st = st or w.st
    n = num_of(w, v)
    ck.ob(same(w, n, T.mod(P(x), p), st.pc), 'value is the canonical residue', 'got %r, want %r mod p' % (n, x))
    ck.ob(same_field(w, v, F, st), 'belongs to the field it was computed in', repr(v))


def same_field(w, v, F, st):
    f = field_of_type(w, v, FP, st)
    r = call(w, '<redox_ecc::primefield::Fp as std::cmp::PartialEq>::eq', f, F, st=st.copy())
    return isinstance(r, Bdd) and holds(w, r, st.pc)


def binary(ck, fm, f, n=2, extra=()):
    w = World()
    with ck.case(fm.label(), w):
        p = w.prime('p', 1, odd=False)
        T.C.primes.pop(p)
        F = mk_field(w, p)
        xs = [w.residue('x%d' % i, p) for i in range(n)]
        es = [mk_elt(w, F, x) for x in xs]
        vals = es + list(extra)
        v = apply(w, fm, vals, w.st)
        ck.need(v is not None, 'returns')
        canonical(ck, w, v, f(*xs), p, F)
        ck.ob(not w.I.panics, 'operands of one field are never refused', w.I.panics)
        # the same operand twice
    return 1


def prime_field(w, minimum=3, residue=None, name='p'):
    p = w.prime(name, minimum, True, residue)
    return p, mk_field(w, p)


def elt_is(ck, w, v, want, p, F, key='value', st=None):
    st = st or w.st
    if v is None:
        ck.ob(False, key, 'always panics: %r' % (w.I.panics,))
        return
    n = num_of(w, v)
    ck.ob(eqmod(w, n, want, p, st.pc), key, 'got %r, want %r mod %r when %r' % (n, want, p, st.pc))


def eqmod(w, a, b, m, pc):
    """canonical residue a equals b modulo m whenever pc holds"""
    ok = w.cd.F
    for g, x in (a.alts if isinstance(a, Un) else ((w.cd.T, a),)):
        for g2, y in (b.alts if isinstance(b, Un) else ((w.cd.T, b),)):
            gg = g & g2
            if (gg & pc).is_false():
                continue
            if not reduced(w, x, m, pc & gg):
                continue
            c = w.cd.zero(x - y, m)
            ok = ok | (gg & c)
    return holds(w, ok, pc)


def quiet(ck, w, key='never panics', under=None):
    bad = [q for q in w.I.panics if not theory.refuted(w.cd, q.guard & (under or w.cd.T))]
    ck.ob(not bad, key, bad)


def refuses(ck, w, v, cond, key):
    """no value is returned when cond holds"""
    ck.ob(v is None or (w.st.pc & cond).is_false(), key, 'returns %r when %r' % (v, w.st.pc & cond))


def c03(ck):
    """Reciprocal, power -1 and division over residues modulo a symbolic odd prime."""
    prog = program()
    ops = operators(prog)
    L = []
    forms = ops.get(('div', 'u32', FPE), [])
    ck.floor('forms of u32 / FpElt', len(forms), 1)
    L += [(f, lambda x: (P(1), x)) for f in forms]
    forms2 = ops.get(('bitxor', FPE, 'i32'), [])
    ck.floor('forms of FpElt ^ i32', len(forms2), 2)
    L += [(f, lambda x: (x, P(-1))) for f in forms2]
    for fm, mk in L:
        w = World()
        with ck.case(fm.label(), w):
            p, F = prime_field(w)
            x = w.residue('x', p)
            e = mk_elt(w, F, x)
            v = apply(w, fm, mk(e), w.st)
            inverse_ok(ck, w, v, x, p)
            quiet(ck, w)
    forms = ops.get(('div', FPE, FPE), [])
    ck.floor('forms of FpElt / FpElt', len(forms), 4)
    for fm in forms:
        w = World()
        with ck.case(fm.label(), w):
            p, F = prime_field(w)
            x, y = w.residue('x', p), w.residue('y', p)
            v = apply(w, fm, (mk_elt(w, F, x), mk_elt(w, F, y)), w.st)
            elt_is(ck, w, v, x * T.inv(y, p), p, F, 'a/b = a * (1/b)')
            quiet(ck, w)
    shorthand(ck, ops, FPE)
    ck.rule('1/x, x^-1 and a/b equal multiplication by the inverse residue; other shorthands are refused')


def inverse_ok(ck, w, v, x, p):
    ck.need(v is not None, 'returns', w.I.panics)
    n = num_of(w, v)
    z = w.cd.zero(x, p)
    one = w.cd.F
    for g, a in (n.alts if isinstance(n, Un) else ((w.cd.T, n),)):
        one = one | (g & w.cd.zero(a * x - 1, p) & ~z) | (g & z & w.cd.zero(a, p))
    ck.ob(holds(w, one, w.st.pc), 'x * (1/x) = 1 and 1/0 = 0', 'got %r' % (n,))
    ck.ob(all(reduced(w, a, p, w.st.pc & g) for g, a in (n.alts if isinstance(n, Un) else ((w.cd.T, n),))), 'canonical')


def shorthand(ck, ops, tyname, mkf=None):
    """^u32 only 2, ^i32 only -1, u32/x only 1"""
    for key, good, pos in ((('bitxor', tyname, 'u32'), 2, 1), (('bitxor', tyname, 'i32'), -1, 1),
                           (('div', 'u32', tyname), 1, 0)):
        for fm in ops.get(key, []):
            w = World()
            with ck.case(fm.label() + ' with another constant', w):
                p = w.prime('p')
                e = (mkf or (lambda w, p: mk_elt(w, mk_field(w, p), w.residue('x', p))))(w, p)
                lo, hi = (0, 2 ** 32 - 1) if 'u32' in key else (-2 ** 31, 2 ** 31 - 1)
                k = T.sym('k', lo, hi)
                w.st.pc = ~w.cd.eq(k, P(good))
                pre = w.st.pc
                v = apply(w, fm, (e, k) if pos else (k, e), w.st)
                refuses(ck, w, v, pre, 'refused')
                ck.ob(bool(w.I.panics), 'refused by a panic')


def c04(ck):
    """x^e for big exponents over residues modulo a symbolic odd prime, symbolic exponent."""
    prog = program()
    ops = operators(prog)
    for ty, signed in ((BIGUINT, False), (BIGINT, True)):
        forms = ops.get(('bitxor', FPE, ty), [])
        ck.floor('forms of FpElt ^ %s' % ty, len(forms), 1)
        for fm in forms:
            for case in ('positive', 'zero', 'negative', 'any'):
                if case == 'negative' and not signed:
                    continue
                w = World()
                with ck.case(fm.label() + ' ' + case, w):
                    p, F = prime_field(w)
                    x = w.residue('x', p)
                    e = mk_elt(w, F, x)
                    k = {'positive': lambda: T.sym('e', 1), 'zero': lambda: ZERO,
                         'negative': lambda: T.sym('e', None, -1),
                         'any': lambda: T.sym('e', None if signed else 0)}[case]()
                    v = apply(w, fm, (e, k), w.st)
                    ck.need(v is not None, 'returns', w.I.panics)
                    n = num_of(w, v)
                    U = T.upow(x, k, p)
                    z = w.cd.eq(k, ZERO)
                    want = mkun([(z, ONE), (~z, U)], w.cd.mgr)
                    ck.ob(eqmod(w, n, want, p, w.st.pc), 'equals the power', 'got %r, want %r' % (n, want))
                    quiet(ck, w)
    ck.rule('x^e = U(x, e) for e != 0 (U(0, .) = 0), 1 for e = 0')


RES16 = [1, 3, 5, 7, 9, 11, 13, 15]


def c05(ck):
    """Square test and square root for the eight residue classes of an odd prime modulo 16."""
    for r in RES16:
        w = World()
        with ck.case('p = %d mod 16, is_square' % r, w):
            p, F = prime_field(w, max(3, r if r > 1 else 17), (r, 16))
            x = w.residue('x', p)
            e = mk_elt(w, F, x)
            v = call(w, '<redox_ecc::primefield::FpElt as redox_ecc::field::Sqrt>::is_square', e)
            ck.need(isinstance(v, Bdd), 'returns', v)
            want = w.cd.square(x, p)
            ck.ob((w.st.pc & (v ^ want)).is_false(), 'true exactly for squares', 'got %r' % (v,))
            quiet(ck, w)
        w = World()
        with ck.case('p = %d mod 16, sqrt' % r, w):
            p, F = prime_field(w, max(3, r if r > 1 else 17), (r, 16))
            x = w.residue('x', p)
            e = mk_elt(w, F, x)
            w.st.pc = w.cd.square(x, p)
            v = call(w, '<redox_ecc::primefield::FpElt as redox_ecc::field::Sqrt>::sqrt', e)
            if r % 4 == 3 or r % 8 == 5:
                ck.need(v is not None, 'returns', w.I.panics)
                root_ok(ck, w, num_of(w, v), x, p)
                quiet(ck, w)
            else:
                ck.ob(v is None or w.st.pc.is_false(), 'refused', v)
    ck.rule('is_square(x) <=> x = 0 or Euler criterion; sqrt(x)^2 = x for squares; other classes refuse')


def root_ok(ck, w, n, x, p):
    ok = w.cd.F
    for g, a in (n.alts if isinstance(n, Un) else ((w.cd.T, n),)):
        if reduced(w, a, p, w.st.pc & g):
            ok = ok | (g & w.cd.zero(T.inner(a, p) * T.inner(a, p) - x, p))
    bad = w.st.pc & ~ok
    ck.ob(holds(w, ok, w.st.pc), 'squares back', 'root %r, fails when %r' % (n, bad))


def bytes_obj(v):
    from engine import bytesdom as B
    return B.as_bytes(v)


def c06(ck):
    """Byte strings of prime-field elements in the segment domain (lengths and values symbolic)."""
    from engine import bytesdom as B
    got = {}
    for o in ('be', 'le'):
        w = World()
        with ck.case('to_bytes_' + o, w):
            p, F = prime_field(w, 2)
            T.C.primes.pop(p)
            x = w.residue('x', p)
            e = mk_elt(w, F, x)
            v = call(w, '<redox_ecc::primefield::FpElt as redox_ecc::ops::Serialize>::to_bytes_' + o, e)
            ck.need(v is not None, 'returns', w.I.panics)
            v = w.value(v)
            quiet(ck, w)
            size = T.floordiv(w.M.bd.bits(p) + 7, 8)
            fixed(ck, w, v, x, size, o)
        w = World()
        with ck.case('from_bytes_%s of to_bytes_%s' % (o, o), w):
            p, F = prime_field(w, 2)
            T.C.primes.pop(p)
            x = w.residue('x', p)
            e = mk_elt(w, F, x)
            v = call(w, '<redox_ecc::primefield::FpElt as redox_ecc::ops::Serialize>::to_bytes_' + o, e)
            ck.need(v is not None, 'returns', w.I.panics)
            r = decode_call(w, '<redox_ecc::primefield::Fp as redox_ecc::ops::Deserialize>::from_bytes_' + o, F, v)
            roundtrip(ck, w, r, lambda q: same(w, num_of(w, q), x, w.st.pc) and same_field(w, q, F, w.st))
            quiet(ck, w)
        w = World()
        with ck.case('from_bytes_%s of arbitrary bytes' % o, w):
            p, F = prime_field(w, 2)
            T.C.primes.pop(p)
            n = T.sym('len', 0, 2 ** 40)
            buf = Bytes([('v', 'buf', ZERO, n)])
            r = decode_call(w, '<redox_ecc::primefield::Fp as redox_ecc::ops::Deserialize>::from_bytes_' + o, F, buf)
            val = w.M.bd.value(buf, o == 'be', w.st.pc)
            roundtrip(ck, w, r, lambda q: same(w, num_of(w, q), T.mod(val, p), w.st.pc) and same_field(w, q, F, w.st))
            quiet(ck, w)
    ck.rule('serialisation has ceil(bits(p)/8) bytes whose big/little-endian value is the residue; '
            'deserialisation is that value mod p and total')


def decode_call(w, name, F, buf, st=None):
    st = st or w.st
    fn = w.by_name(name)
    if not isinstance(buf, Ptr):
        o = w.I.alloc(st, buf, 'in')
        ln = w.M.seq_len(buf, st)
        buf = Ptr(o, (), (ZERO, ln))
    return w.run(fn, [w.ref(F, st), buf], st)


def result_parts(w, r, st=None):
    """(guard ok, value), guard err of a Result"""
    st = st or w.st
    ok, val, err = w.cd.F, [], w.cd.F
    for g0, e in (r.alts if isinstance(r, Un) else ((w.cd.T, r),)):
        if not isinstance(e, EnumV):
            raise Unsupported('Result expected, got %r' % (e,))
        names = [v['name'] for v in w.prog.types[e.tid]['v']]
        for g, i, f in e.alts:
            g = g & g0
            if (g & st.pc).is_false():
                continue
            if names[i] == 'Ok':
                ok = ok | g
                val.append((g, f[0]))
            else:
                err = err | g
    return ok, (mkun(val, w.cd.mgr) if val else None), err


def roundtrip(ck, w, r, pred):
    ck.need(r is not None, 'returns', w.I.panics)
    ok, v, err = result_parts(w, r)
    ck.ob((w.st.pc & ~ok).is_false(), 'never an error', repr(r)[:300])
    if v is not None:
        ck.ob(pred(v), 'value', repr(v)[:400])


def fixed(ck, w, v, x, size, order, st=None):
    """v is the byte string of exactly `size` bytes whose value is x"""
    st = st or w.st
    for g, a in (v.alts if isinstance(v, Un) else ((w.cd.T, v),)):
        pc = st.pc & g
        if pc.is_false():
            continue
        b = bytes_obj(a)
        ln = w.M.bd.interp.models.seq_len(b, st) if False else w.M.seq_len(b, st)
        ck.ob(same(w, ln, size, pc), 'length is the fixed width', 'length %r, want %r' % (ln, size))
        val = w.M.bd.value(b, order == 'be', pc)
        ck.ob(same(w, val, x, pc), 'bytes denote the value in %s order' % order, 'bytes %r denote %r' % (b, val))


INT_TYPES = {'u8': (0, 2 ** 8 - 1), 'u16': (0, 2 ** 16 - 1), 'u32': (0, 2 ** 32 - 1), 'u64': (0, 2 ** 64 - 1),
             'i8': (-2 ** 7, 2 ** 7 - 1), 'i16': (-2 ** 15, 2 ** 15 - 1), 'i32': (-2 ** 31, 2 ** 31 - 1),
             'i64': (-2 ** 63, 2 ** 63 - 1)}
PREFIX = (('', 10), ('0x', 16), ('0o', 8), ('0b', 2))


def texts(name):
    """(label, text, value): partition of the numerals, the digits themselves symbolic"""
    yield 'empty text', Str(''), ZERO
    for sg in ('', '-'):
        for px, radix in PREFIX:
            for ml in ((1, 2) if not px else (1,)):
                v = T.sym('%s_value' % name, 0)
                d = ('num', name, radix, v) if ml == 1 else ('num', name, radix, v, 2)
                if ml == 1 and not px:
                    d = ('num', name, radix, v, 1, 1)
                yield '%s%s<digits%s>' % (sg, px, '' if ml == 1 else ', two or more'), (sg + px, d), \
                    v.scale(-1 if sg else 1)


def malformed():
    """(label, text): not numerals"""
    for sg in ('', '-'):
        for px, radix in PREFIX:
            if sg or px:
                yield '%s%s' % (sg, px), lambda s=sg + px: (s,)
            for bad in ('z', ' ', '.', '/', ':', ',1') + (('8',) if radix == 8 else ()) + (('2',) if radix == 2 else ()) + \
                    (('a', 'f') if radix == 10 else ()) + (('g',) if radix == 16 else ()):
                def text(px=px, radix=radix, sg=sg, bad=bad):
                    v = T.sym('t_value', 0)
                    d = ('num', 't', radix, v) if px else ('num', 't', radix, v, 1, 1)
                    return (sg + px, d, bad)
                yield '%s%s<digits>%s' % (sg, px, bad), text


def text_value(pieces_):
    return mkstr(pieces_) if isinstance(pieces_, tuple) else pieces_


def c07(ck):
    """Integer and text factories over a symbolic modulus; the digits of the numeral are symbolic."""
    prog = program()
    n = 0
    for ty, (lo, hi) in INT_TYPES.items():
        w = World()
        with ck.case('from ' + ty, w):
            p = w.prime('p', 1, odd=False)
            T.C.primes.pop(p)
            F = mk_field(w, p)
            x = T.sym('n', lo, hi)
            v = call(w, '<redox_ecc::primefield::Fp as redox_ecc::ops::FromFactory<%s>>::from' % ty, F, x)
            ck.need(v is not None, 'returns')
            canonical(ck, w, v, x, p, F)
            quiet(ck, w)
            n += 1
    ck.floor('integer factories', n, 8)
    lifted(ck, 'Fp', 'lift_', mk_field, lambda w, v, x, p, F: canonical(ck, w, v, x, p, F))
    labels = [l for l, _, _ in texts('t')]
    for lab in labels:
        w = World()
        with ck.case('from text %s' % lab, w):
            p = w.prime('p', 1, odd=False)
            T.C.primes.pop(p)
            F = mk_field(w, p)
            _, tx, val = [t for t in texts('t') if t[0] == lab][0]
            v = call(w, '<redox_ecc::primefield::Fp as redox_ecc::ops::FromFactory<&str>>::from', F, text_value(tx))
            ck.need(v is not None, 'returns', w.I.panics)
            canonical(ck, w, v, val, p, F)
            quiet(ck, w)
    for lab, tx in malformed():
        w = World()
        with ck.case('from malformed text %s' % lab, w):
            p = w.prime('p', 1, odd=False)
            T.C.primes.pop(p)
            F = mk_field(w, p)
            v = call(w, '<redox_ecc::primefield::Fp as redox_ecc::ops::FromFactory<&str>>::from', F, mkstr(tx()))
            ck.ob(v is None and bool(w.I.panics), 'is refused', repr(v)[:300])
    w = World()
    with ck.case('get_modulus and size_bytes', w):
        p = w.prime('p', 1, odd=False)
        T.C.primes.pop(p)
        F = mk_field(w, p)
        v = call(w, '<redox_ecc::primefield::Fp as redox_ecc::field::Field>::get_modulus', F)
        ck.ob(same(w, v, p, w.st.pc), 'modulus', repr(v))
        v = call(w, '<redox_ecc::primefield::Fp as redox_ecc::field::Field>::size_bytes', F)
        ck.ob(same(w, v, T.floordiv(w.M.bd.bits(p) + 7, 8), w.st.pc), 'width', repr(v))
        quiet(ck, w)
    ck.rule('factory results are the residue of the denoted integer; modulus and width reported exactly')


WIT = 'redox_ecc::verif_witness::'


def lifted(ck, kind, name, mkf, judge):
    """the blanket lifting of native values, instantiated by the witness module"""
    n = 0
    for ty, (lo, hi) in INT_TYPES.items():
        w = World()
        with ck.case('%s::lift' % ty, w):
            p = w.prime('p', 1, odd=False)
            T.C.primes.pop(p)
            F = mkf(w, p)
            x = T.sym('n', lo, hi)
            v = call(w, WIT + name + ty, F, x)
            ck.need(v is not None, 'returns')
            judge(w, v, x, p, F)
            quiet(ck, w)
            n += 1
    ck.floor('lifted integer types', n, 8)


def c13(ck):
    """Parity of the canonical representative as a symbolic condition; p symbolic."""
    for odd in (True, False):
        w = World()
        with ck.case('Fp sgn0, %s' % ('odd modulus' if odd else 'any modulus'), w):
            p = w.prime('p', 3 if odd else 1, odd=odd)
            if not odd:
                T.C.primes.pop(p)
            F = mk_field(w, p)
            x = w.residue('x', p)
            s = call(w, '<redox_ecc::primefield::FpElt as redox_ecc::field::Sgn0>::sgn0', mk_elt(w, F, x))
            ck.need(s is not None, 'returns', w.I.panics)
            sign_ok(ck, w, s, parity(w, x), 'even means +1, odd means -1')
            if odd:
                s2 = call(w, '<redox_ecc::primefield::FpElt as redox_ecc::field::Sgn0>::sgn0',
                          mk_elt(w, F, -x))
                opposite(ck, w, s, s2, w.cd.zero(x, p))
            quiet(ck, w)
    from . import quad as QQ
    w = World()
    with ck.case('Fp2 sgn0', w):
        p, F = QQ.setup(w)
        a, b = w.residue('a', p), w.residue('b', p)
        nm = '<redox_ecc::quadraticfield::Fp2Elt as redox_ecc::field::Sgn0>::sgn0'
        s = call(w, nm, QQ.mk(w, F, a, b))
        ck.need(s is not None, 'returns', w.I.panics)
        z = w.cd.zero(a, p)
        sign_ok(ck, w, s, w.cd.mgr.ite(z, parity(w, b), parity(w, a)), 'real component unless zero')
        s2 = call(w, nm, QQ.mk(w, F, -a, -b))
        opposite(ck, w, s, s2, z & w.cd.zero(b, p))
        quiet(ck, w)
    ck.rule('sgn0 = 1 - 2 * parity of the deciding representative; opposite on x and -x for x != 0')


def parity(w, x):
    return w.cd.eq(T.mod(x, P(2)), ONE)


def sign_ok(ck, w, s, odd, key):
    ok = w.cd.F
    for g, v in alts_of(w, s):
        ok = ok | (g & w.cd.mgr.ite(odd, w.cd.eq(v, P(-1)), w.cd.eq(v, ONE)))
    ck.ob(holds(w, ok, w.st.pc), key, 'got %r' % (s,))


def alts_of(w, v):
    return v.alts if isinstance(v, Un) else ((w.cd.T, v),)


def opposite(ck, w, s, s2, zero):
    ok = w.cd.F
    for g, v in alts_of(w, s):
        for g2, u in alts_of(w, s2):
            ok = ok | (g & g2 & w.cd.eq(v + u, ZERO))
    ck.ob(holds(w, ok, w.st.pc & ~zero), 'signs of x and -x differ', '%r / %r' % (s, s2))


def c14(ck):
    """Selection, constants and predicates by abstract interpretation over symbolic elements."""
    from . import quad as QQ
    for kind, name in (('Fp', WIT + 'cmov_fp'), ('Fp2', WIT + 'cmov_fp2')):
        w = World()
        with ck.case(kind + ' cmov', w):
            p = w.prime('p', 3)
            if kind == 'Fp':
                F = mk_field(w, p)
                x, y = (mk_elt(w, F, w.residue(s, p)) for s in 'xy')
            else:
                F = QQ.mkq(w, p)
                x, y = (QQ.mk(w, F, w.residue(s + '0', p), w.residue(s + '1', p)) for s in 'xy')
            b = w.cd.mgr.var(('b', 'selector'))
            x0, y0 = x, y
            rx, ry = w.ref(x), w.ref(y)
            v = w.run(name, [rx, ry, b])
            ck.need(v is not None, 'returns')
            t = simp(w, v, w.st.pc & b)
            f = simp(w, v, w.st.pc & ~b)
            ck.ob(t == y, 'true selects the second operand', repr(t)[:300])
            ck.ob(f == x, 'false selects the first operand', repr(f)[:300])
            ck.ob(w.value(rx) == x0 and w.value(ry) == y0, 'operands unmodified')
            quiet(ck, w)
    for kind in ('Fp', 'Fp2'):
        E = 'redox_ecc::' + (FPE if kind == 'Fp' else FP2E)
        FF = 'redox_ecc::' + (FP if kind == 'Fp' else FP2)

        def fresh():
            w = World()
            p = w.prime('p', 2, odd=False)
            T.C.primes.pop(p)
            if kind == 'Fp':
                F = mk_field(w, p)
                c = [w.residue('x', p)]
                return w, p, F, c, mk_elt(w, F, c[0])
            F = QQ.mkq(w, p)
            c = [w.residue('a', p), w.residue('b', p)]
            return w, p, F, c, QQ.mk(w, F, *c)

        def isv(ck, w, v, want, p, F):
            if kind == 'Fp':
                ck.need(v is not None, 'returns')
                canonical(ck, w, v, want[0], p, F)
            else:
                QQ.is_elt(ck, w, v, want, p, F)
        for m, tr, want in (('is_zero', 'Zero', (0, 0)), ('is_one', 'One', (1, 0))):
            w, p, F, c, e = fresh()
            with ck.case('%s %s' % (kind, m), w):
                v = call(w, '<%s as num_traits::%s>::%s' % (E, tr, m), e)
                ck.need(isinstance(v, Bdd), 'returns', v)
                g = w.cd.T
                for x, y in zip(c, want):
                    g = g & w.cd.eq(x, P(y))
                ck.ob(holds(w, v.iff(g), w.st.pc), 'true exactly for the constant', repr(v))
                quiet(ck, w)
        for m, tr, want in (('set_zero', 'Zero', (0, 0)), ('set_one', 'One', (1, 0))):
            w, p, F, c, e = fresh()
            with ck.case('%s %s' % (kind, m), w):
                r = w.ref(e)
                w.run('<%s as num_traits::%s>::%s' % (E, tr, m), [r])
                isv(ck, w, w.value(r), [P(x) for x in want], p, F)
                quiet(ck, w)
        for m, want in (('zero', (0, 0)), ('one', (1, 0))):
            w, p, F, c, e = fresh()
            with ck.case('%s %s()' % (kind, m), w):
                v = call(w, '<%s as redox_ecc::field::Field>::%s' % (FF, m), F)
                isv(ck, w, v, [P(x) for x in want], p, F)
                quiet(ck, w)
    ck.rule('cmov(x, y, b) is y iff b; is_zero/is_one hold exactly on the constants; set_* writes the constant '
            'and keeps the field')


def simp(w, v, pc):
    """value restricted to pc"""
    if isinstance(v, Un):
        return mkun([(g & pc, simp(w, x, pc)) for g, x in v.alts if not (g & pc).is_false()], w.cd.mgr)
    if isinstance(v, Agg):
        return Agg(v.tag, [simp(w, x, pc) for x in v.f])
    if isinstance(v, Seq):
        return Seq([simp(w, x, pc) for x in v.e])
    return v
