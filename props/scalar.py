"""Scalar properties C17-C19 (three curve families)."""
from .common import *
from . import primef as PF
from .primef import quiet, refuses, eqmod, alts_of, equality

FAMS = ('weierstrass', 'montgomery', 'edwards')


def sty(fam):
    return fam + '::scalar::Scalar'


def mk_scalar(w, fam, k, r, st=None):
    st = st or w.st
    return w.run('redox_ecc::%s::scalar::Scalar::new' % fam, [P(k), w.ref(P(r), st)], st)


def ints(w, v):
    """integer leaves of a value"""
    out = []
    v = pointee(w, v)
    if isinstance(v, Agg):
        for x in v.f:
            out += ints(w, x)
    elif isinstance(v, (Poly,)):
        out.append(v)
    elif isinstance(v, Un):
        if all(isinstance(x, Poly) for _, x in v.alts):
            out.append(v)
        else:
            raise Unsupported('scalar with several shapes')
    return out


def slots(w, fam):
    """positions of the value and of the order among the integer leaves of a scalar"""
    w2 = World(w.prog)
    r = T.sym('r_probe', 1)
    k = w2.residue('k_probe', r)
    l = ints(w2, mk_scalar(w2, fam, k, r))
    kv = [i for i, x in enumerate(l) if same(w2, x, k, w2.st.pc)]
    rv = [i for i, x in enumerate(l) if same(w2, x, r, w2.st.pc)]
    if len(kv) != 1 or len(rv) != 1:
        raise Unsupported('representation of scalars: value %r order %r' % (kv, rv))
    return kv[0], rv[0]


_SL = {}


def sval(w, fam, v):
    return ints(w, v)[_SL[fam][0]]


def sord(w, fam, v):
    return ints(w, v)[_SL[fam][1]]


def learn(ck):
    for fam in FAMS:
        with ck.case(fam + ' representation'):
            _SL[fam] = slots(World(), fam)


def is_scalar(ck, w, fam, v, want, r, key='value'):
    ck.need(v is not None, key + ': returns', w.I.panics)
    ck.ob(eqmod(w, sval(w, fam, v), P(want), r, w.st.pc), key + ' is the canonical residue',
          'got %r, want %r mod r' % (sval(w, fam, v), want))
    ck.ob(same(w, sord(w, fam, v), r, w.st.pc), key + ': keeps the order', repr(sord(w, fam, v)))


def order(w, prime=False):
    if prime:
        return w.prime('r', 3)
    r = w.prime('r', 1, odd=False)
    T.C.primes.pop(r)
    return r


def c17(ck):
    """Abstract interpretation of every scalar operator of the three families over a symbolic order r
    (any r >= 1 for the ring operations, an odd prime for reciprocals)."""
    prog = program()
    ops = operators(prog)
    learn(ck)
    for fam in FAMS:
        ty = sty(fam)
        w = World()
        with ck.case(fam + ' Scalar::new', w):
            r = order(w)
            k = T.sym('k')
            is_scalar(ck, w, fam, mk_scalar(w, fam, k, r), k, r)
            quiet(ck, w)
        for op, f, n in (('add', lambda a, b: a + b, 2), ('sub', lambda a, b: a - b, 2),
                         ('mul', lambda a, b: a * b, 2), ('neg', lambda a: -a, 1)):
            forms = ops.get((op,) + (ty,) * n, [])
            ck.floor('forms of %s %s' % (op, ty), len(forms), 4 if n == 2 else 2)
            for fm in forms:
                w = World()
                with ck.case(fm.label(), w):
                    r = order(w)
                    xs = [w.residue('k%d' % i, r) for i in range(n)]
                    vals = [mk_scalar(w, fam, x, r) for x in xs]
                    v = apply(w, fm, vals, w.st)
                    is_scalar(ck, w, fam, v, f(*xs), r)
                    quiet(ck, w)
        if prog.byname.get('<redox_ecc::%s as std::cmp::PartialEq>::eq' % ty):
            w = World()
            with ck.case(ty + ' ==', w):
                r = order(w)
                a, b = w.residue('a', r), w.residue('b', r)
                equality(ck, w, ty, mk_scalar(w, fam, a, r), mk_scalar(w, fam, b, r), w.cd.eq(a, b))
        forms = ops.get(('div', 'u32', ty), [])
        ck.floor('forms of u32 / ' + ty, len(forms), 1)
        for fm in forms:
            w = World()
            with ck.case(fm.label(), w):
                r = order(w, True)
                k = w.residue('k', r)
                v = apply(w, fm, (P(1), mk_scalar(w, fam, k, r)), w.st)
                ck.need(v is not None, 'returns', w.I.panics)
                n = sval(w, fam, v)
                z = w.cd.zero(k, r)
                good = w.cd.F
                for g, a in alts_of(w, n):
                    good = good | (g & w.cd.mgr.ite(z, w.cd.zero(a, r), w.cd.zero(a * k - 1, r)))
                ck.ob(holds(w, good, w.st.pc), 'k * (1/k) = 1 and 1/0 = 0', repr(n))
                ck.ob(all(reduced(w, a, r, w.st.pc & g) for g, a in alts_of(w, n)), 'canonical', repr(n))
                ck.ob(same(w, sord(w, fam, v), r, w.st.pc), 'keeps the order')
                quiet(ck, w)
            w = World()
            with ck.case(fm.label() + ' with another numerator', w):
                r = order(w)
                k = w.residue('k', r)
                s = mk_scalar(w, fam, k, r)
                c = T.sym('c', 0, 2 ** 32 - 1)
                w.st.pc = ~w.cd.eq(c, P(1))
                pre = w.st.pc
                v = apply(w, fm, (c, s), w.st)
                refuses(ck, w, v, pre, 'refused')
                ck.ob(bool(w.I.panics), 'refused by a panic')
        forms = ops.get(('div', ty, ty), [])
        ck.floor('forms of %s / %s' % (ty, ty), len(forms), 4)
        for fm in forms:
            w = World()
            with ck.case(fm.label(), w):
                r = order(w, True)
                a, b = w.residue('a', r), w.residue('b', r)
                v = apply(w, fm, (mk_scalar(w, fam, a, r), mk_scalar(w, fam, b, r)), w.st)
                is_scalar(ck, w, fam, v, a * T.inv(b, r), r, 'a * (1/b)')
                quiet(ck, w)
    ck.rule('scalar operations return the exact residue in [0,r) with the same order; 1/k inverts; '
            'other numerators are refused')


def c18(ck):
    """Byte strings of scalars in the segment domain; order and value symbolic."""
    learn(ck)
    for fam in FAMS:
        for o in ('be', 'le'):
            w = World()
            with ck.case('%s to_bytes_%s' % (fam, o), w):
                r = order(w)
                k = w.residue('k', r)
                s = mk_scalar(w, fam, k, r)
                w.st.pc = w.st.pc & w.cd.ge(r - 2)
                v = call(w, '<redox_ecc::%s as redox_ecc::ops::Serialize>::to_bytes_%s' % (sty(fam), o), s)
                ck.need(v is not None, 'returns', w.I.panics)
                v = w.value(v)
                size = T.floordiv(w.M.bd.bits(r) + 7, 8)
                PF.fixed(ck, w, v, k, size, o)
                quiet(ck, w)
    ck.rule('serialisation has ceil(bits(r)/8) bytes whose value in the given order is the scalar')


def opt_parts(w, v, st):
    """(guard some, payload), guard none"""
    some, pay, none = w.cd.F, [], w.cd.F
    for g0, e in (v.alts if isinstance(v, Un) else ((w.cd.T, v),)):
        if not isinstance(e, EnumV):
            raise Unsupported('Option expected, got %r' % (e,))
        names = [x['name'] for x in w.prog.types[e.tid]['v']]
        for g, i, f in e.alts:
            g = g & g0
            if (g & st.pc).is_false():
                continue
            if names[i] == 'Some':
                some = some | g
                pay.append((g, f[0]))
            else:
                none = none | g
    return some, (mkun(pay, w.cd.mgr) if pay else None), none


def next_fn(w, tid):
    """the Iterator::next of the iterator type"""
    name = w.prog.tn[tid]
    for nm in ('<redox_ecc::%s as std::iter::Iterator>::next' % name, '<%s as std::iter::Iterator>::next' % name):
        l = [f for f in w.prog.byname.get(nm, ()) if f.blocks]
        if len(l) == 1:
            return l[0]
    return None


def step(w, it, tid, st):
    """one Iterator::next: (option parts, new iterator value)"""
    fn = next_fn(w, tid)
    r = w.ref(it, st)
    if fn is not None:
        v = w.run(fn, [r], st)
        if v is None:
            return None
        return opt_parts(w, v, st), w.value(r, st)
    return step_std(w, it, st)


def step_std(w, it, st):
    r = w.ref(it, st)
    some, pay, none = w.cd.F, [], w.cd.F
    alts, = (w.M.step_iter(it, st, r),)
    raise Unsupported('iterator of a std type')


def int_paths(v, path=()):
    if isinstance(v, Poly):
        yield path, v
    elif isinstance(v, (Agg, Seq)):
        for i, x in enumerate(v.f if isinstance(v, Agg) else v.e):
            yield from int_paths(x, path + (i,))
    elif isinstance(v, EnumV) and len(v.alts) == 1:
        for i, x in enumerate(v.alts[0][2]):
            yield from int_paths(x, path + (i,))
    elif isinstance(v, (IterV,)):
        for i, x in enumerate(v.a):
            if isinstance(x, (V, Poly)):
                yield from int_paths(x, path + (i,))


def put(v, path, x):
    if not path:
        return x
    i = path[0]
    if isinstance(v, Agg):
        return Agg(v.tag, [put(y, path[1:], x) if j == i else y for j, y in enumerate(v.f)])
    if isinstance(v, Seq):
        return Seq([put(y, path[1:], x) if j == i else y for j, y in enumerate(v.e)])
    if isinstance(v, EnumV):
        g, n, f = v.alts[0]
        return EnumV(v.tid, [(g, n, tuple(put(y, path[1:], x) if j == i else y for j, y in enumerate(f)))])
    return IterV(v.kind, *[put(y, path[1:], x) if j == i else y for j, y in enumerate(v.a)])


def advance(w, it, st):
    """one step of an iterator value: (guard that an item exists, item, next iterator value)"""
    r = w.ref(it, st)
    g, v = w.M.step_iter(r, st, False)
    return g, v, w.value(r, st)


def iter_fn(w, fam, o):
    return w.by_name('redox_ecc::%s::Scalar::iter_%s' % (fam + '::scalar', o))


def start_iter(w, fam, o, k, r):
    s = mk_scalar(w, fam, k, r)
    fn = iter_fn(w, fam, o)
    return w.run(fn, args_for(w, Form(fn, 'iter', (sty(fam),), (w.prog.types[fn.locals[1]]['k'] == 'ref',)), [s], w.st))


def exhausted(ck, w, it, key):
    """two further steps yield nothing"""
    for i in (1, 2):
        g, v, it = advance(w, it, w.st)
        ck.ob(holds(w, ~g, w.st.pc), '%s (step %d past the end)' % (key, i), 'an item exists when %r' % (g & w.st.pc,))


def c19(ck):
    """Inductive invariant of the iterator state: after j steps the state is the initial one with its
    counter advanced by j, each step yields the bit of the next position, and the state after bits(k)
    steps yields nothing; k and the number of bits are symbolic."""
    learn(ck)
    for fam in FAMS:
        for o in ('lr', 'rl'):
            lab = '%s iter_%s' % (fam, o)
            w = World()
            with ck.case(lab + ' of zero', w):
                r = order(w)
                it = start_iter(w, fam, o, ZERO, r)
                ck.need(it is not None, 'returns', w.I.panics)
                exhausted(ck, w, it, 'no item')
                for f in redefined(w, iter_fn(w, fam, o)):
                    agree(ck, w, f, f.name.split('::')[-1], it, ZERO, w.st.copy())
                quiet(ck, w)
            iterate(ck, fam, o, lab)
    ck.rule('iterator state S(j) = S(0) + j * step; next(S(j)) = (bit e(j), S(j+1)) for 0 <= j < bits(k), '
            'next(S(bits(k))) = None; e(j) = bits(k)-1-j left to right, j right to left')


def scalar_case(w, one_bit=False):
    r = order(w)
    k = T.sym('k', 1, ub=(r - 1,))
    T.C.gmod[k.single_gen().id] = r
    L = w.M.bd.bits(k)
    return r, k, L


def iterate(ck, fam, o, lab):
    w = World()
    with ck.case(lab + ' induction', w):
        r, k, L = scalar_case(w)
        it0 = start_iter(w, fam, o, k, r)
        ck.need(it0 is not None, 'returns', w.I.panics)
        pc0 = w.st.pc
        # the change made by one step of a scalar with at least two bits
        st = w.st.copy()
        st.pc = st.pc & w.cd.ge(L - 2)
        g, v, it1 = advance(w, it0, st)
        ck.ob(holds(w, g, st.pc), 'a first item exists')
        it1 = PF.simp(w, it1, st.pc)
        deltas = []
        p1 = dict(int_paths(it1))
        for path, x in int_paths(it0):
            y = p1.get(path)
            if y is None:
                raise Unsupported('iterator state changes shape: %r' % (it1,))
            d = (y - x).const()
            if d is None:
                raise Unsupported('iterator counter: %r becomes %r' % (x, y))
            if d:
                deltas.append((path, x, int(d)))

        def state(j):
            v = it0
            for path, x, d in deltas:
                v = put(v, path, x + j.scale(d))
            return v
        j = T.sym('j', 0)
        e = (L - 1 - j) if o == 'lr' else j
        # generic step
        st = w.st.copy()
        st.pc = st.pc & w.cd.ge(L - 2 - j)
        g, v, nx = advance(w, state(j), st)
        ck.ob(holds(w, g, st.pc), 'item j exists', repr(g))
        ck.ob(isbit(w, v, k, e, st.pc), 'item j is the bit of its position', 'got %r' % (v,))
        ck.ob(PF.simp(w, nx, st.pc) == state(j + 1), 'state advances by one step',
              '%r, want %r' % (PF.simp(w, nx, st.pc), state(j + 1)))
        # last step
        last = L - 1
        e = (L - 1 - last) if o == 'lr' else last
        st = w.st.copy()
        g, v, nx = advance(w, state(last), st)
        ck.ob(holds(w, g, st.pc), 'the last item exists', repr(g))
        ck.ob(isbit(w, v, k, e, st.pc), 'the last item is the bit of its position', 'got %r' % (v,))
        w.st = st
        exhausted(ck, w, nx, 'nothing after bits(k) items')
        quiet(ck, w)
        ck.count('inductive steps')
        for f in redefined(w, iter_fn(w, fam, o)):
            m = f.name.split('::')[-1]
            j = T.sym('j', 0)
            s0 = w.st.copy()
            s0.pc = pc0 & w.cd.ge(L - 1 - j)
            agree(ck, w, f, m, state(j), L - j, s0.copy())
            agree(ck, w, f, m, nx, ZERO, w.st.copy())
            if m == 'nth':
                skip(ck, w, f, state, j, k, L, o, s0)
            quiet(ck, w)


def redefined(w, fn):
    """provided iterator methods that the type returned by fn redefines"""
    t = w.prog.tn[fn.locals[0]]
    return [f for f in w.prog.fns if f.crate == 'redox_ecc' and f.kind == 'item' and ' as std::iter::Iterator>::' in f.name
            and w.I.same_type(f, t) and f.name.split('::')[-1] in ('size_hint', 'count', 'nth')]


def agree(ck, w, f, m, it, left, st):
    """a redefined method has to agree with next(); `left` items are left"""
    if m == 'size_hint':
        v = call(w, f, it, st=st)
        ck.need(isinstance(v, Agg) and len(v.f) == 2, 'size_hint returns', w.I.panics)
        ck.ob(all(holds(w, w.cd.ge(left - x), st.pc & g) for g, x in alts_of(w, v.f[0])), 'size_hint: lower bound', repr(v))
        g, x = w.M.split_option(v.f[1], st)
        ck.ob((g & st.pc).is_false() or all(holds(w, w.cd.ge(y - left), st.pc & g & h) for h, y in alts_of(w, x)),
              'size_hint: upper bound', repr(v))
    elif m == 'count':
        v = call(w, f, it, st=st)
        ck.ob(v is not None and all(holds(w, w.cd.eq(x, left), st.pc & g) for g, x in alts_of(w, v)),
              'count: the items left', repr(v))
    else:
        n = T.sym('n', 0, 2 ** 64 - 1)
        st.pc = st.pc & w.cd.ge(n - left)
        r = w.ref(it, st)
        g, v = w.M.split_option(call(w, f, r, n, st=st), st)
        ck.ob((g & st.pc).is_false(), 'nth: nothing past the end', repr(g))


def skip(ck, w, f, state, j, k, L, o, st0):
    n = T.sym('n', 0, 2 ** 64 - 1)
    st = st0.copy()
    st.pc = st.pc & w.cd.ge(L - 1 - j - n)
    r = w.ref(state(j), st)
    g, v = w.M.split_option(call(w, f, r, n, st=st), st)
    ck.ob(holds(w, g, st.pc), 'nth: item j + n exists', repr(g))
    ck.ob(isbit(w, v, k, (L - 1 - j - n) if o == 'lr' else j + n, st.pc), 'nth: item j + n', repr(v))
    more = st.pc & w.cd.ge(L - 2 - j - n)
    at = PF.simp(w, w.value(r, st), more)
    ck.ob(at == state(j + n + 1), 'nth: continues after it', '%r, want %r' % (at, state(j + n + 1)))
    st.pc = st.pc & ~w.cd.ge(L - 2 - j - n)
    g, _, _ = advance(w, PF.simp(w, w.value(r, st), st.pc), st)
    ck.ob(holds(w, ~g, st.pc), 'nth: nothing after the last item', repr(g))


def isbit(w, v, k, e, pc):
    want = w.cd.eq(T.kbit(k, e), ONE)
    if v is None:
        return False
    for g, x in alts_of(w, v):
        if (g & pc).is_false():
            continue
        if isinstance(x, Poly):
            x = w.cd.eq(x, ONE)
        if not isinstance(x, Bdd) or not holds(w, x.iff(want), pc & g):
            return False
    return True
