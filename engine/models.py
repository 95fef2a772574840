"""Abstract semantics of the functions outside the crate: num-bigint integers,
Vec / slices / byte strings, strings, iterators, Arc / OnceLock / Box, formatting,
panics.  A model states what the documentation of the function promises; every
function of the crate itself is analysed from its MIR.
"""
import re
from fractions import Fraction
from . import terms as T
from .terms import Poly, P, ZERO, ONE
from .bdd import Bdd
from .values import *
from .values import Unsupported
from . import bytesdom as B

NUM = ('num_bigint', 'num_integer', 'num_traits')
RX_GEN = re.compile(r'::<[^<>]*(?:<[^<>]*(?:<[^<>]*>[^<>]*)*>[^<>]*)*>$')
INTS = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize')


def method_of(name):
    n = name
    while n.endswith('>'):
        m = RX_GEN.search(n)
        if not m:
            break
        n = n[:m.start()]
    return n.split('::')[-1]


class Models:
    def __init__(self, interp):
        self.summarise = None
        self.I = interp
        self.cd = interp.cd
        self.m = interp.cd.mgr
        self.prog = interp.prog
        self.bd = B.Dom(interp)
        self.cache = {}
        self.get_or_init_sites = []

    # =================================================================== helpers
    def val(self, a, st):
        """dereference fully"""
        n = 0
        while isinstance(a, (Ptr, Un)):
            if isinstance(a, Un):
                if not any(isinstance(x, Ptr) for _, x in a.alts):
                    return a
                a = mkun([(g, self.val(x, st)) for g, x in self.I.alts(a, st.pc)], self.m)
                continue
            a = self.I.read_loc(('m', a.obj, a.path, a.sl), st)
            n += 1
            if n > 8:
                raise Unsupported('deep reference')
        return a

    def lift(self, f, args, st):
        """f(st restricted to the guard, *vals) over all alternatives"""
        if not any(isinstance(a, Un) for a in args):
            return f(st, *args)
        combos = [(self.m.T, ())]
        for a in args:
            nx = []
            for g, vs in combos:
                for g2, v in (a.alts if isinstance(a, Un) else ((self.m.T, a),)):
                    gg = g & g2
                    if not (gg & st.pc).is_false():
                        nx.append((gg, vs + (v,)))
            combos = nx
            if len(combos) > 4000:
                raise Unsupported('too many guarded alternatives')
        pc0 = st.pc
        out = []
        live = self.m.F
        for g, vs in combos:
            st.pc = pc0 & g
            r = f(st, *vs)
            live = live | st.pc
            if r is not None and not st.pc.is_false():
                out.append((self.cd.simp(g, pc0), r))
        st.pc = live
        if not out:
            return None
        return mkun(out, self.m)

    def forks(self, f, args, st):
        """like lift, but each alternative gets its own memory; joined afterwards"""
        combos = [(self.m.T, ())]
        for a in args:
            combos = [(g & g2, vs + (v,)) for g, vs in combos
                      for g2, v in (a.alts if isinstance(a, Un) else ((self.m.T, a),))
                      if not (g & g2 & st.pc).is_false()]
        if len(combos) == 1:
            return f(st, *combos[0][1])
        outs = []
        for g, vs in combos:
            s2 = st.copy()
            s2.pc = st.pc & g
            r = f(s2, *vs)
            if r is not None and not s2.pc.is_false():
                outs.append((s2, r))
        if not outs:
            st.pc = self.m.F
            return None
        tot = self.m.F
        for s, _ in outs:
            tot = tot | s.pc
        val = mkun([(self.cd.simp(s.pc, tot), v) for s, v in outs], self.m)
        j = self.I.join([s for s, _ in outs])
        st.mem, st.pc = j.mem, j.pc
        return val

    def true(self, g, pc):
        return g.is_true() or (pc & ~g).is_false()

    def enum(self, tid, alts, st):
        alts = [(g, i, tuple(f)) for g, i, f in alts if not (g & st.pc).is_false()]
        return EnumV(tid, alts)

    def option(self, tid, guard, v, st):
        return self.enum(tid, [(~guard, 0, ()), (guard, 1, (v,))], st)

    def ordering(self, d, tid, st):
        z = self.cd.eq(d, ZERO, st.pc)
        lt = ~self.cd.ge(d, st.pc)
        return self.enum(tid, [(lt, 0, ()), (z, 1, ()), (~lt & ~z, 2, ())], st)

    def opt_arg(self, tid):
        """payload type of an Option/Result type id"""
        g = self.prog.types[tid].get('g')
        return g[0] if g else None

    # =================================================================== sequences
    def seq_len(self, v, st):
        if isinstance(v, Un):
            return mkun([(g, self.seq_len(x, st)) for g, x in self.I.alts(v, st.pc)], self.m)
        if isinstance(v, Seq):
            return P(len(v.e))
        if isinstance(v, Bytes):
            return B.length(v)
        if isinstance(v, Opq) and v.name == 'digits':
            return T.floordiv(self.bd.bits(v.a[0]) + 31, 32)
        if isinstance(v, Opq) and v.name == 'digits64':
            return T.floordiv(self.bd.bits(v.a[0]) + 63, 64)
        if isinstance(v, Opq) and v.name == 'bitseq':
            return self.bd.bits(v.a[0])
        if isinstance(v, (Str, StrV)):
            return self.str_len(v)
        if isinstance(v, Opq) and v.name == 'subseq':
            return v.a[2]
        if isinstance(v, Opq) and v.name == 'strbytes':
            return self.str_len(v.a[0])
        raise Unsupported('length of %r' % (v,))

    def slice_val(self, v, sl, st):
        off, n = sl
        if isinstance(off, Un) or isinstance(n, Un) or isinstance(v, Un):
            return self.lift(lambda s, a, b, c: self.slice_val(a, (b, c), s), (v, off, n), st)
        if isinstance(v, Seq):
            if off.const() is not None and n.const() is not None:
                o = int(off.const())
                return Seq(v.e[o:o + int(n.const())])
            if all(isinstance(x, Poly) for x in v.e):
                return self.bd.sub(B.of_seq(v), off, n, st.pc)
            raise Unsupported('slice with unknown bounds')
        if isinstance(v, Bytes):
            return self.bd.sub(v, off, n, st.pc)
        if isinstance(v, Opq) and v.name in ('digits', 'digits64'):
            if off.const() == 0 and self.bd.eqz(n - self.seq_len(v, st), st.pc):
                return v
            return Opq('subseq', v, off, n)
        if isinstance(v, (Str, StrV)):
            return v
        raise Unsupported('slice of %r' % (v,))

    def seq_get(self, v, idx, st):
        if isinstance(idx, Un):
            return self.lift(lambda s, i: self.seq_get(v, i, s), (idx,), st)
        if isinstance(v, Un):
            return self.lift(lambda s, x: self.seq_get(x, idx, s), (v,), st)
        pc = st.pc if st is not None else self.m.T
        if isinstance(v, Seq):
            c = idx.const()
            if c is not None:
                if 0 <= c < len(v.e):
                    return v.e[int(c)]
                raise Unsupported('index %s out of range' % c)
            out = []
            for i, x in enumerate(v.e):
                g = self.cd.eq(idx, P(i), pc)
                if not (g & pc).is_false():
                    out.append((g, x))
            return mkun(out, self.m)
        if isinstance(v, Bytes):
            return self.bd.get(v, idx, pc)
        if isinstance(v, Opq) and v.name == 'digits':
            return self.digit(v.a[0], idx)
        if isinstance(v, Opq) and v.name == 'digits64':
            n = v.a[0]
            if idx.const() is not None and n.const() is not None:
                return P((abs(int(n.const())) >> (64 * int(idx.const()))) & (2 ** 64 - 1))
            return P(T.C.gen('digit64', (n, idx), 0, 2 ** 64 - 1))
        if isinstance(v, Opq) and v.name == 'strbytes':
            return self.char_at(v.a[0], idx, st)
        if isinstance(v, Opq) and v.name == 'bitseq':
            pos = self.bd.bits(v.a[0]) - 1 - idx if v.a[1] else idx
            return self.cd.eq(T.kbit(v.a[0], pos), ONE, pc)
        if isinstance(v, Opq) and v.name == 'subseq':
            return self.seq_get(v.a[0], v.a[1] + idx, st)
        raise Unsupported('element of %r' % (v,))

    def digit(self, n, idx):
        if n.const() is not None and idx.const() is not None:
            return P((abs(int(n.const())) >> (32 * int(idx.const()))) & 0xffffffff)
        return P(T.C.gen('digit', (n, idx), 0, 0xffffffff))

    def seq_set(self, v, idx, f, st):
        if isinstance(idx, Un):
            return self.lift(lambda s, i: self.seq_set(v, i, f, s), (idx,), st)
        if isinstance(v, Un):
            return self.lift(lambda s, x: self.seq_set(x, idx, f, s), (v,), st)
        if isinstance(v, Seq):
            c = idx.const()
            if c is not None:
                e = list(v.e)
                e[int(c)] = f(e[int(c)])
                return Seq(e)
            e = []
            for i, x in enumerate(v.e):
                g = self.cd.eq(idx, P(i), st.pc)
                e.append(x if (g & st.pc).is_false() else mkun([(g, f(x)), (~g, x)], self.m))
            return Seq(e)
        if isinstance(v, Bytes):
            old = self.bd.get(v, idx, st.pc)
            new = f(old)
            if isinstance(new, Un):
                return mkun([(g, self.bd.put(v, idx, x, st.pc & g)) for g, x in self.I.alts(new, st.pc)], self.m)
            return self.bd.put(v, idx, new, st.pc)
        if v is UNINIT:
            c = idx.const()
            if c is not None:
                return Seq([UNINIT] * int(c) + [f(UNINIT)])
        raise Unsupported('element write into %r' % (v,))

    def iter_field(self, v, i):
        return v.a[i]

    def iter_update(self, v, i, x):
        a = list(v.a)
        a[i] = x
        return IterV(v.kind, *a)

    def raw_ptr(self, vals, st):
        p = vals[0]
        if len(vals) > 1 and isinstance(p, Ptr) and isinstance(vals[1], Poly):
            off = p.sl[0] if p.sl else ZERO
            return Ptr(p.obj, p.path, (off, vals[1]))
        return p

    def ptr_offset(self, a, b, st):
        raise Unsupported('pointer arithmetic')

    def index_value(self, base, idx, st):
        """Index::index on a sequence reference: (pointer to the element / subslice)"""
        def f(st, p, ix):
            if isinstance(p, BoxV):
                p = Ptr(p.obj)
            if not isinstance(p, Ptr):
                raise Unsupported('index of %r' % (p,))
            while True:
                x = self.I.read_loc(('m', p.obj, p.path, None), st)
                if isinstance(x, Ptr) and p.sl is None:
                    p = x
                else:
                    break
            off, n = p.sl if p.sl else (ZERO, self.seq_len(x, st))
            if isinstance(n, Un):
                return self.lift(lambda s, nn: self._index(s, p, off, nn, ix), (n,), st)
            return self._index(st, p, off, n, ix)
        return self.lift(f, (base, self.val(idx, st)), st)

    def _index(self, st, p, off, n, ix):
        if isinstance(ix, Poly):
            ok = self.cd.ge(ix, st.pc) & self.cd.ge(n - ix - 1, st.pc)
            self.I.panic(st, ~ok, 'index out of bounds')
            if st.pc.is_false():
                return None
            return Ptr(p.obj, p.path + (('i', off + ix),))
        lo, hi = self.range_of(ix, n)
        def g(st, lo, hi):
            ok = self.cd.ge(hi - lo, st.pc) & self.cd.ge(n - hi, st.pc)
            self.I.panic(st, ~ok, 'slice out of bounds')
            if st.pc.is_false():
                return None
            return Ptr(p.obj, p.path, (off + lo, hi - lo))
        return self.lift(g, (lo, hi), st)

    def range_of(self, r, n):
        if isinstance(r, Agg):
            tn = self.prog.tn[r.tag] if isinstance(r.tag, int) else ''
            if 'RangeFull' in tn:
                return ZERO, n
            if 'RangeToInclusive' in tn:
                return ZERO, r.f[0] + 1
            if 'RangeTo<' in tn:
                return ZERO, r.f[0]
            if 'RangeFrom<' in tn:
                return r.f[0], n
            if 'RangeInclusive<' in tn:
                return r.f[0], r.f[1] + 1
            if 'Range<' in tn:
                return r.f[0], r.f[1]
        raise Unsupported('range %r' % (r,))

    # =================================================================== bit operations
    def interpolate(self, p, f):
        """the polynomial equal to f(p) when p only depends on few 0/1 generators"""
        gs = []
        for g in sorted(p.gens()):
            gg = T.C.gens[g]
            if gg.lo != 0 or gg.hi != 1:
                return None
            gs.append(g)
        if len(gs) > 4:
            return None
        return self._interp(p, gs, f)

    def _interp(self, p, gs, f):
        if not gs:
            c = p.const()
            if type(c) is not int:
                return None
            return P(f(c))
        g = gs[0]
        a = self._interp(p.subs({g: ZERO}), gs[1:], f)
        b = self._interp(p.subs({g: ONE}), gs[1:], f)
        if a is None or b is None:
            return None
        return a + P(T.C.gens[g]) * (b - a)

    def interpolate2(self, x, y, f):
        gs = sorted(x.gens() | y.gens())
        if len(gs) > 4:
            return None
        for g in gs:
            gg = T.C.gens[g]
            if gg.lo != 0 or gg.hi != 1:
                return None

        def go(x, y, gs):
            if not gs:
                a, b = x.const(), y.const()
                return P(f(int(a), int(b)))
            g = gs[0]
            a = go(x.subs({g: ZERO}), y.subs({g: ZERO}), gs[1:])
            b = go(x.subs({g: ONE}), y.subs({g: ONE}), gs[1:])
            return a + P(T.C.gens[g]) * (b - a)
        return go(x, y, gs)

    def bitop(self, op, x, y, ty, st):
        f = {'BitAnd': lambda a, b: a & b, 'BitOr': lambda a, b: a | b, 'BitXor': lambda a, b: a ^ b}[op]
        a, b = x.const(), y.const()
        if a is not None and b is not None:
            return P(f(int(a), int(b)))
        if a is not None:
            x, y, a, b = y, x, b, a
        r = self.interpolate2(x, y, f)
        if r is not None:
            return r
        if op == 'BitAnd':
            if b is not None and b >= 0:
                b = int(b)
                if b == 0:
                    return ZERO
                if b & (b + 1) == 0:
                    return self.low_bits(x, b.bit_length())
                if b & (b - 1) == 0:
                    k = b.bit_length() - 1
                    return self.low_bits(self.shift_right(x, k, st), 1).scale(b)
                # contiguous run of ones: 2^hi - 2^lo
                lo = (b & -b).bit_length() - 1
                top = b >> lo
                if top & (top + 1) == 0:
                    return self.low_bits(self.shift_right(x, lo, st), top.bit_length()).scale(1 << lo)
            for u, w in ((x, y), (y, x)):
                # one bit of a word
                g, h = u.single_gen(), w.single_gen()
                if g is not None and g.kind == 'digit' and h is not None and h.kind == 'shl' and h.args[0] == ONE:
                    return self.kbit(g.args[0], g.args[1], h.args[1]) * w
                o = T.word(g)
                if o is not None and h is not None and h.kind == 'shl' and h.args[0] == ONE:
                    return T.word_bit(o[0], o[1], h.args[1], o[2]) * w
        if op in ('BitOr', 'BitXor'):
            if b == 0:
                return x
            for u, w in ((x, y), (y, x)):
                # u < 2^k and w a multiple of 2^k
                k = self.common_two(w)
                if k and self.true(self.cd.ge(u, st.pc), st.pc) and self.true(self.cd.ge((1 << k) - 1 - u, st.pc), st.pc):
                    return x + y
        lo, hi = 0, None
        return P(T.C.gen(op, tuple(sorted((x, y), key=repr)), None, None))

    def common_two(self, p):
        k = None
        for c in p.d.values():
            if type(c) is not int:
                return 0
            t = (c & -c).bit_length() - 1
            k = t if k is None else min(k, t)
        return k or 0

    def low_bits(self, x, k):
        """x mod 2^k"""
        g = x.single_gen()
        if g is not None and k == 1:
            if g.kind == 'dshr':
                return self.kbit(g.args[0], g.args[1], g.args[2])
            if g.kind == 'digit':
                return self.kbit(g.args[0], g.args[1], ZERO)
            if g.kind == 'digit64' and T.word(g):
                return T.word_bit(g.args[0], g.args[1], ZERO, 64)
            if g.kind == 'shr':
                r = T.lowest_bit(g.args[0], g.args[1])
                if r is not None:
                    return r
        if g is not None and g.kind == 'digit' and k <= 32 and T.nonneg(g.args[0]):
            i = g.args[1].const()
            if i is not None and 0 <= i < 64:
                return T.mod(T.floordiv(g.args[0], 1 << (32 * int(i))), P(1 << k))
        return T.mod(x, P(1 << k))

    def kbit(self, n, idx, j):
        return T.word_bit(n, idx, j, 32)

    def shift_right(self, x, k, st):
        g = x.single_gen()
        if g is not None and g.kind == 'digit':
            if k == 31:
                return self.kbit(g.args[0], g.args[1], P(31))
            return P(T.C.gen('dshr', (g.args[0], g.args[1], P(k)), 0, 0xffffffff >> k))
        r = self.interpolate(x, lambda c: c >> k)
        if r is not None:
            return r
        return T.floordiv(x, 1 << k)

    def shr(self, x, y, ty, st):
        c = y.const()
        if c is not None:
            if c == 0:
                return x
            return self.shift_right(x, int(c), st)
        g = x.single_gen()
        if g is not None and g.kind == 'digit':
            return P(T.C.gen('dshr', (g.args[0], g.args[1], y), 0, 0xffffffff))
        if x.const() is not None:
            r = self.interpolate(y, lambda s: int(x.const()) >> s)
            if r is not None:
                return r
        return P(T.C.gen('shr', (x, y), 0 if T.nonneg(x) else None, None))

    def shl(self, x, y, ty, st):
        c = y.const()
        if c is not None:
            v = x.scale(1 << int(c))
            if ty is None:
                return v
            return self.I.wrap(v, ty, st.pc)
        r = self.interpolate2(x, y, lambda a, b: a << b)
        if r is not None:
            return r if ty is None else self.I.wrap(r, ty, st.pc)
        if ty is None:
            return x * self.bd.pow2(y)
        if x == ONE and self.true(self.cd.ge(P(int(self.I.int_range(ty)[1]).bit_length()) - 1 - y, st.pc), st.pc) \
                and self.true(self.cd.ge(y, st.pc), st.pc):
            return P(T.C.gen('shl', (x, y), 1, None))
        return P(T.C.gen('shl', (x, y), None, None))

    # =================================================================== dispatch
    def call_unresolved(self, f, args, st, ret_ty, term):
        raise Unsupported('unresolved call of %s' % f.fd)

    def find(self, fn):
        n = fn.name
        meth = method_of(n)
        if fn.crate == 'redox_ecc':
            return None
        if 'precondition_check' in n:
            return lambda fn, a, st, rt, t: UNIT
        if meth in ('call', 'call_mut', 'call_once') and ' as std::ops::Fn' in n and not fn.blocks:
            return self.call_dyn
        if fn.kind == 'intrinsic':
            h = getattr(self, 'i_' + meth, None)
            if h:
                return h
            return None if fn.blocks else self.unsupported
        if n.startswith(('std::rt::panic', 'core::panicking', 'std::rt::begin_panic')) or meth in (
                'unwrap_failed', 'expect_failed', 'unwrap_failed_inner', 'slice_index_fail', 'slice_error_fail',
                'panic_display', 'unreachable_display', 'panic_str_2015', 'panic_explicit', 'handle_error') \
                or 'slice_index_fail' in n or 'len_mismatch_fail' in n:
            if 'default_msg' in n:
                return lambda fn, a, st, rt, t: Opq('msg')
            return self.panics
        if meth in ('fmt', 'to_string') and (' as std::fmt::Display' in n or ' as std::string::' in n):
            h = self.find_std(fn, n, meth)
            if h is not None:
                return h
        if fn.crate in NUM or 'num_bigint::Big' in n.split(' as ')[0] and not n.startswith('std::') \
                and not n.startswith('<std::') and not n.startswith('core::'):
            if '<num_bigint::' in n or '<&num_bigint::' in n or fn.crate in NUM or '<&&num_bigint' in n:
                h = self.find_std(fn, n, meth) if 'Digits' in n else None
                if h is not None:
                    return h
                h = getattr(self, 'n_' + meth, None)
                if h is None:
                    return self.unsupported if not fn.blocks else None
                return self.num(h, meth)
        h = self.find_std(fn, n, meth)
        if h is not None:
            return h
        if not fn.blocks:
            return self.unsupported
        return None

    def unsupported(self, fn, args, st, rt, term):
        raise Unsupported('no model of %s' % fn.name)

    def panics(self, fn, args, st, rt, term):
        self.I.panic(st, self.m.T, 'panic:' + fn.name.split('::')[-1])
        return None

    def find_std(self, fn, n, meth):
        R = self.rules()
        alt = re.sub(r'^(<?)(std|core)::', lambda m: m.group(1) + ('core' if m.group(2) == 'std' else 'std') + '::', n)
        for rx, h in R:
            if rx.search(n) or alt != n and rx.search(alt):
                return h
        return None

    def rules(self):
        if self.cache.get('rules'):
            return self.cache['rules']
        L = []

        def r(rx, h):
            L.append((re.compile(rx), h))
        r(r'^<std::sync::Arc<.*> as std::clone::Clone>::clone$', self.arc_clone)
        r(r'^<std::sync::Arc<.*> as std::cmp::PartialEq>::(eq|ne)$', self.arc_eq)
        r(r'^<std::sync::Arc<.*> as std::ops::Deref>::deref$', self.arc_deref)
        r(r'^<std::sync::Arc<.*> as std::convert::AsRef<.*>>::as_ref$', self.arc_deref)
        r(r'^std::sync::Arc::<.*>::new$', self.arc_new)
        r(r'^<std::sync::Arc<(.*)> as std::convert::From<\1>>::from$', self.arc_new)
        r(r'^<std::sync::Arc<.*> as std::borrow::Borrow<.*>>::borrow$', self.arc_deref)
        r(r'^std::sync::Arc::<.*>::ptr_eq$', self.arc_ptr_eq)
        r(r'^std::sync::OnceLock::<.*>::new$', self.once_new)
        r(r'^std::sync::OnceLock::<.*>::get_or_init::<', self.once_get)
        r(r'^<std::sync::OnceLock<.*> as std::(default::Default>::default|convert::From<.*>>::from)$', self.once_default)
        r(r'^std::sync::OnceLock::<.*>::get$', self.once_read)
        r(r'^std::sync::OnceLock::<.*>::set$', self.once_set)
        r(r'^std::sync::(Mutex|RwLock)::<.*>::new$', self.mutex_new)
        r(r'^std::sync::(Mutex|RwLock)::<.*>::(lock|read|write)$', self.mutex_lock)
        r(r'^<std::sync::(MutexGuard|RwLockReadGuard|RwLockWriteGuard)<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$', self.guard_deref)
        r(r'^std::boxed::Box::<.*>::new_uninit$', self.box_uninit)
        r(r'^std::boxed::Box::<.*>::new$', self.box_new)
        r(r'^std::boxed::box_assume_init_into_vec_unsafe', self.box_vec)
        r(r'^<std::boxed::Box<.*> as std::(convert::AsRef<.*>|ops::Deref|borrow::Borrow<.*>)>::', self.box_ref)
        # vectors and slices
        r(r'^std::vec::Vec::<.*>::(new|with_capacity)$', self.vec_new)
        r(r'^<std::vec::Vec<.*> as std::default::Default>::default$', self.vec_new)
        r(r'^std::vec::from_elem', self.vec_from_elem)
        r(r'^(std::vec::Vec::<.*>|core::slice::<impl \[.*\]>)::len$', self.vec_len)
        r(r'^(std::vec::Vec::<.*>|core::slice::<impl \[.*\]>)::is_empty$', self.vec_is_empty)
        r(r'^std::vec::Vec::<.*>::append$', self.vec_append)
        r(r'^std::vec::Vec::<.*>::push$', self.vec_push)
        r(r'^std::vec::Vec::<.*>::insert$', self.vec_insert)
        r(r'^std::vec::Vec::<.*>::resize$', self.vec_resize)
        r(r'^std::vec::Vec::<.*>::truncate$', self.vec_truncate)
        r(r'^std::vec::Vec::<.*>::clear$', self.vec_clear)
        r(r'^std::vec::Vec::<.*>::drain(::<.*>)?$', self.vec_drain)
        r(r'^std::vec::Vec::<.*>::split_off$', self.vec_drain)
        r(r'^std::vec::Vec::<.*>::pop$', self.vec_pop)
        r(r'^std::vec::Vec::<.*>::extend_from_slice$', self.vec_extend)
        r(r'^<std::vec::Vec<.*> as std::iter::Extend<.*>>::extend', self.vec_extend_iter)
        r(r'^<std::vec::Vec<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$', self.vec_deref)
        r(r'^<std::vec::Vec<.*> as std::convert::As(Ref|Mut)<\[.*\]>>::as_(ref|mut)$', self.vec_deref)
        r(r'^<std::vec::Vec<.*> as std::borrow::Borrow<\[.*\]>>::borrow$', self.vec_deref)
        r(r'^std::vec::Vec::<.*>::as_(mut_)?slice$', self.vec_deref)
        r(r'^<std::vec::Vec<.*> as std::ops::Index(Mut)?<.*>>::index(_mut)?$', self.vec_index)
        r(r'^core::slice::index::<impl std::ops::Index(Mut)?<.*> for \[.*\]>::index(_mut)?$', self.vec_index)
        r(r'^core::array::<impl std::ops::Index(Mut)?<.*> for \[.*\]>::index(_mut)?$', self.vec_index)
        r(r'^<std::ops::Range(From|To|Inclusive|Full|ToInclusive)?(<usize>)? as std::slice::SliceIndex<\[.*\]>>::index(_mut)?$',
          self.slice_index)
        r(r'^core::slice::<impl \[.*\]>::(get|first|last)(_mut)?(::<.*>)?$', self.slice_get)
        r(r'^core::slice::<impl \[.*\]>::split_at(_mut)?$', self.slice_split_at)
        r(r'^core::slice::<impl \[.*\]>::chunks(_exact)?$', self.slice_chunks)
        r(r'^(core|std)::slice::<impl \[.*\]>::(to_vec|into_vec)$', self.to_vec)
        r(r'^<.* as std::borrow::ToOwned>::to_owned$', self.to_owned)
        r(r'^<\[.*\] as .*::ToOwned>::to_owned$|^(std|alloc)::slice::<impl std::borrow::ToOwned for \[.*\]>::to_owned$', self.to_vec)
        r(r'^core::slice::<impl \[.*\]>::reverse$', self.vec_reverse)
        r(r'^core::slice::<impl \[.*\]>::(copy_from_slice|clone_from_slice)$', self.copy_from_slice)
        r(r'^core::slice::<impl \[.*\]>::swap$', self.slice_swap)
        r(r'^core::slice::<impl \[.*\]>::fill$', self.slice_fill)
        r(r'^(std|core)::slice::<impl \[(std::string::String|&.*str)\]>::(concat|join)(::<.*>)?$', self.str_join)
        r(r'^(std|core)::slice::<impl \[.*\]>::concat', self.slice_concat)
        r(r'^core::slice::<impl \[.*\]>::(starts|ends)_with$', self.slice_starts)
        r(r'^core::slice::<impl \[.*\]>::contains$', self.slice_contains)
        r(r'^<std::vec::Vec<.*> as std::clone::Clone>::clone$', self.vec_clone)
        r(r'^core::array::<impl std::clone::Clone for \[.*\]>::clone$', self.vec_clone)
        r(r'^core::array::<impl \[.*\]>::map::<', self.array_map)
        r(r'^core::array::from_fn::<', self.array_from_fn)
        r(r'^core::array::<impl \[.*\]>::(as_slice|as_mut_slice|each_ref|each_mut)$', self.array_view)
        r(r'^std::vec::partial_eq::<impl std::cmp::PartialEq.* for std::vec::Vec<.*>>::(eq|ne)$', self.vec_eq)
        r(r'^core::slice::cmp::<impl std::cmp::PartialEq.* for \[.*\]>::(eq|ne)$', self.vec_eq)
        r(r'^core::array::equality::<impl std::cmp::PartialEq.*>::(eq|ne)$', self.vec_eq)
        r(r'^core::slice::<impl \[.*\]>::strip_(prefix|suffix)(::<.*>)?$', self.slice_strip)
        r(r'^std::vec::Vec::<.*>::remove$', self.vec_remove)
        r(r'^core::num::<impl (u|i)(8|16|32|64|128|size)>::(to|from)_(be|le)_bytes$', self.int_bytes)
        r(r'<impl std::io::Write for std::vec::Vec<u8>>::write(_all)?$', self.write_all)
        # iterators
        r(r'^core::slice::<impl \[.*\]>::iter(_mut)?$', self.slice_iter)
        r(r'^<&(mut )?(std::vec::Vec<.*>|\[.*\]) as std::iter::IntoIterator>::into_iter$', self.slice_iter)
        r(r'^core::slice::iter::<impl std::iter::IntoIterator for &.*\[.*\]>::into_iter$', self.slice_iter)
        r(r'^core::array::<impl std::iter::IntoIterator for &.*\[.*\]>::into_iter$', self.slice_iter)
        r(r'^std::array::<impl std::iter::IntoIterator for &.*\[.*\]>::into_iter$', self.slice_iter)
        r(r'^<std::vec::Vec<.*> as std::iter::IntoIterator>::into_iter$', self.vec_into_iter)
        r(r'^(core|std)::array::.*<impl std::iter::IntoIterator for \[.*\]>::into_iter$', self.vec_into_iter)
        r(r'^<std::vec::Vec<.*> as std::convert::From<&(mut )?\[.*\]>>::from$', self.to_vec)
        r(r'^<std::vec::Vec<.*> as std::convert::From<\[.*\]>>::from$', lambda fn, a, st, rt, t: a[0])
        r(r'^<std::vec::Vec<.*> as std::iter::FromIterator<.*>>::from_iter', self.vec_from_iter)
        r(r'^<std::(iter|slice|vec|array|ops|str|option)::.* as std::iter::IntoIterator>::into_iter$', self.identity)
        r(r'^<.* as std::iter::(range::RangeIteratorImpl|Iterator|DoubleEndedIterator|ExactSizeIterator)>::', self.iter_method)
        r(r"^num_bigint::biguint::iter::.*<impl std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator) for num_bigint::U(32|64)Digits.*>::", self.iter_method)
        r(r'^std::iter::range::<impl std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator) for std::ops::Range.*>::',
          self.iter_method)
        r(r'^std::iter::(repeat|repeat_n|once|zip|successors|from_fn)(::<.*>)?$', self.iter_source)
        # strings
        r(r'^core::str::<impl str>::(len|is_empty|as_bytes|as_str|trim_start_matches|starts_with|strip_prefix|splitn|split|'
          r'split_once|parse|chars|bytes|get|find|contains|split_at|to_owned|trim|trim_start|trim_end|trim_left_matches'
          r'|trim_end_matches|trim_right_matches)(::<.*>)?$', self.str_method)
        r(r'^(std|alloc)::str::<impl str>::(to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase|replace)(::<.*>)?$',
          self.str_method)
        r(r'^std::str::Chars::<.*>::as_str$', self.chars_rest)
        r(r'^core::str::traits::<impl std::ops::Index<.*> for str>::index$', self.str_index)
        r(r'^core::str::traits::<impl std::slice::SliceIndex<str> for .*>::index$', self.str_slice_index)
        r(r'^core::str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)$', self.str_eq)
        r(r'^<str as std::cmp::PartialEq>::(eq|ne)$', self.str_eq)
        r(r'^<(std::string::)?String as std::ops::Deref>::deref$', self.string_deref)
        r(r'^(std::string::)?String::as_str$', self.string_deref)
        r(r'^std::string::String::(new|with_capacity)$', lambda fn, a, st, rt, t: Str(''))
        r(r'^<std::string::String as std::default::Default>::default$', lambda fn, a, st, rt, t: Str(''))
        r(r'^<std::string::String as std::convert::From<&?(mut )?(str|std::string::String)>>::from$', self.string_deref)
        r(r'^<std::string::String as std::clone::Clone>::clone$', self.string_deref)
        r(r'^<str as std::borrow::ToOwned>::to_owned$|^std::str::<impl std::borrow::ToOwned for str>::to_owned$', self.string_deref)
        r(r'^std::string::String::(push|push_str)$', self.string_push)
        r(r'^<std::string::String as std::ops::(Add|AddAssign)<&str>>::(add|add_assign)$', self.string_push)
        r(r'^<std::string::String as std::fmt::Write>::write_(fmt|str|char)$', self.string_write)
        r(r'^std::string::String::(len|is_empty)$', self.str_method)
        r(r'^<.* as std::string::(ToString|SpecToString)>::(spec_)?to_string$', self.to_string)
        # formatting
        r(r'Argument::<.*>::new_(display|debug)::<', self.fmt_arg)
        r(r'^std::fmt::Arguments::<.*>::new', self.fmt_args)
        r(r'^std::fmt::Arguments::<.*>::from_str', self.fmt_from_str)
        r(r'^std::fmt::Formatter::<.*>::write_fmt$', self.fmt_write)
        r(r'^<std::fmt::Formatter<.*> as std::fmt::Write>::write_(fmt|str|char)$', self.fmt_write)
        r(r'^std::fmt::Formatter::<.*>::(write_str|pad)$', self.fmt_write)
        r(r'^<(&*)(str|num_bigint::BigInt|num_bigint::BigUint) as std::fmt::Display>::fmt$', self.fmt_display)
        r(r'^core::fmt::num::.*<impl std::fmt::Display for .*>::fmt$', self.fmt_display)
        r(r'^(alloc|std)::fmt::format', self.fmt_format)
        r(r'io::error::<impl std::io::Error>::(new|other|from)', self.io_error)
        r(r'^std::io::Error::(new|other|from)', self.io_error)
        r(r'^<std::io::Error as std::convert::From<.*>>::from$', self.io_error)
        # memory
        r(r'^(std|core)::mem::swap(::<.*>)?$', self.mem_swap)
        r(r'^(std|core)::mem::replace(::<.*>)?$', self.mem_replace)
        r(r'^(std|core)::mem::drop(::<.*>)?$', lambda fn, a, st, rt, t: UNIT)
        # integers
        r(r'^core::num::<impl (u|i)(8|16|32|64|128|size)>::(pow|is_power_of_two|div_ceil|rem_euclid|div_euclid|'
          r'checked_\w+|saturating_sub|wrapping_(sub|add|mul|neg)|overflowing_(sub|add|mul)|abs|signum|unsigned_abs|min|max'
          r'|abs_diff|leading_zeros|trailing_zeros|count_ones)$', self.int_method)
        r(r'^(std|core)::cmp::(min|max)::<(u|i)(8|16|32|64|128|size)>$', self.int_minmax)
        r(r'^<(u|i)(8|16|32|64|128|size) as std::cmp::Ord>::(min|max|cmp|clamp)$', self.int_minmax)
        r(r'^std::cmp::impls::<impl std::cmp::(Partial)?Ord for (u|i)(8|16|32|64|128|size)>::', self.int_cmp)
        self.cache['rules'] = L
        return L

    # =================================================================== num-bigint
    def num(self, h, meth):
        inplace = meth.endswith('_assign') or meth in ('set_zero', 'set_one', 'clone_from', 'inc', 'dec', 'set_bit')

        def f(fn, args, st, rt, term):
            if inplace:
                vals = tuple(self.val(a, st) for a in args[1:])
                p = args[0]
                if not isinstance(p, Ptr):
                    raise Unsupported('in-place %s on %r' % (meth, p))
                old = self.val(p, st)
                r = self.lift(lambda s, *v: h(s, rt, fn, *v), (old,) + vals, st)
                if r is None:
                    return None
                self.I.write_loc(('m', p.obj, p.path, p.sl), r, st)
                return UNIT
            vals = tuple(self.val(a, st) for a in args)
            r = self.lift(lambda s, *v: h(s, rt, fn, *v), vals, st)
            if r is not None and rt is not None and self.prog.types[rt]['k'] == 'ref':
                return Ptr(self.I.alloc(st, r, 'tmp'))
            return r
        return f

    def need(self, *vs):
        for v in vs:
            if not isinstance(v, Poly):
                raise Unsupported('integer expected, got %r' % (v,))

    def is_uint(self, rt):
        return rt is not None and 'BigUint' in self.prog.tn[rt]

    def n_add(self, st, rt, fn, a, b):
        self.need(a, b)
        return a + b
    n_add_assign = n_add

    def n_sub(self, st, rt, fn, a, b):
        self.need(a, b)
        r = a - b
        if 'BigUint' in fn.name and 'BigInt' not in fn.name:
            self.I.panic(st, ~self.cd.ge(r, st.pc), 'BigUint subtraction underflow')
        return r
    n_sub_assign = n_sub

    def n_mul(self, st, rt, fn, a, b):
        self.need(a, b)
        for x, y in ((a, b), (b, a)):
            g = x.single_gen() or (-x).single_gen()
            if g is not None and g.kind == 'quot' and g.args[1] == y:
                v = g.args[0] - T.mod(*g.args)
                return v if x.single_gen() is not None else -v
        return a * b
    n_mul_assign = n_mul

    def n_neg(self, st, rt, fn, a):
        self.need(a)
        return -a

    def nonzero(self, st, b):
        self.I.panic(st, self.cd.eq(b, ZERO, st.pc), 'division by zero')

    def n_mod_floor(self, st, rt, fn, a, b):
        self.need(a, b)
        self.nonzero(st, b)
        if st.pc.is_false():
            return None
        pos = self.cd.ge(b - 1, st.pc)
        if not self.true(pos, st.pc):
            raise Unsupported('modulus %r of unknown sign' % (b,))
        return self.modterm(a, b, st)
    n_rem_euclid = n_mod_floor

    def modterm(self, a, b, st):
        if self.true(self.cd.ge(a, st.pc), st.pc) and self.true(self.cd.ge(b - 1 - a, st.pc), st.pc):
            return a
        if b.const() is not None:
            r = self.interpolate(a, lambda c: c % int(b.const()))
            if r is not None:
                return r
        return T.mod(a, b)

    def n_div_floor(self, st, rt, fn, a, b):
        self.need(a, b)
        self.nonzero(st, b)
        if st.pc.is_false():
            return None
        c = b.const()
        if c is None or c <= 0:
            return self.quotient(a, b, st)
        return T.floordiv(a, int(c))
    n_div_euclid = n_div_floor

    def quotient(self, a, b, st):
        """floor(a / b) for an unknown b > 0; its product with b is known (see n_mul)"""
        if not self.true(self.cd.ge(b - 1, st.pc), st.pc):
            raise Unsupported('division by %r' % (b,))
        if self.modterm(a, b, st) == a:
            return ZERO
        nn = self.true(self.cd.ge(a, st.pc), st.pc)
        return P(T.C.gen('quot', (a, b), 0 if nn else None, None))

    def n_div_ceil(self, st, rt, fn, a, b):
        return self.n_neg(st, rt, fn, self.n_div_floor(st, rt, fn, -a, b))

    def n_div_mod_floor(self, st, rt, fn, a, b):
        return Agg('tuple', (self.n_div_floor(st, rt, fn, a, b), self.n_mod_floor(st, rt, fn, a, b)))

    def n_rem(self, st, rt, fn, a, b):
        self.need(a, b)
        self.nonzero(st, b)
        if st.pc.is_false():
            return None
        if not self.true(self.cd.ge(b - 1, st.pc), st.pc):
            raise Unsupported('remainder by %r' % (b,))
        nn = self.cd.ge(a, st.pc)
        if self.true(nn, st.pc):
            return self.modterm(a, b, st)
        r = T.mod(a, b)
        up = nn | self.cd.eq(r, ZERO, st.pc)
        return mkun([(up, r), (~up, r - b)], self.m)
    n_rem_assign = n_rem

    def n_div(self, st, rt, fn, a, b):
        self.need(a, b)
        self.nonzero(st, b)
        if st.pc.is_false():
            return None
        if b.const() is None:
            nn = self.cd.ge(a, st.pc)
            out = []
            if not (nn & st.pc).is_false():
                s2 = st.copy()
                s2.pc = st.pc & nn
                out.append((nn, self.quotient(a, b, s2)))
            if not (~nn & st.pc).is_false():
                s2 = st.copy()
                s2.pc = st.pc & ~nn
                out.append((~nn, -self.quotient(-a, b, s2)))
            return mkun(out, self.m)
        return self.I.int_div('Div', a, b, st.pc)
    n_div_assign = n_div

    def n_div_rem(self, st, rt, fn, a, b):
        return Agg('tuple', (self.n_div(st, rt, fn, a, b), self.n_rem(st, rt, fn, a, b)))

    def n_shr(self, st, rt, fn, a, b):
        self.need(a, b)
        c = b.const()
        if c is None:
            return self.shr(a, b, None, st)
        r = self.interpolate(a, lambda x: x >> int(c))
        return r if r is not None else T.floordiv(a, 1 << int(c))
    n_shr_assign = n_shr

    def n_shl(self, st, rt, fn, a, b):
        self.need(a, b)
        return self.shl(a, b, None, st)
    n_shl_assign = n_shl

    def n_bitand(self, st, rt, fn, a, b):
        return self.bitop('BitAnd', a, b, None, st)
    n_bitand_assign = n_bitand

    def n_bitor(self, st, rt, fn, a, b):
        return self.bitop('BitOr', a, b, None, st)

    def n_bitxor(self, st, rt, fn, a, b):
        return self.bitop('BitXor', a, b, None, st)

    def n_zero(self, st, rt, fn, *a):
        return ZERO

    def n_one(self, st, rt, fn, *a):
        return ONE
    n_default = n_zero

    def n_set_zero(self, st, rt, fn, a):
        return ZERO

    def n_set_one(self, st, rt, fn, a):
        return ONE

    def n_is_zero(self, st, rt, fn, a):
        self.need(a)
        return self.cd.eq(a, ZERO, st.pc)

    def n_is_one(self, st, rt, fn, a):
        self.need(a)
        return self.cd.eq(a, ONE, st.pc)

    def n_is_negative(self, st, rt, fn, a):
        return ~self.cd.ge(a, st.pc)

    def n_is_positive(self, st, rt, fn, a):
        return self.cd.ge(a - 1, st.pc)

    def n_is_multiple_of(self, st, rt, fn, a, b):
        return self.cd.eq(self.n_mod_floor(st, rt, fn, a, b), ZERO, st.pc)
    n_divides = n_is_multiple_of

    def n_checked_add(self, st, rt, fn, a, b):
        self.need(a, b)
        return self.option(rt, self.m.T, a + b, st)

    def n_checked_mul(self, st, rt, fn, a, b):
        self.need(a, b)
        return self.option(rt, self.m.T, self.n_mul(st, None, fn, a, b), st)

    def n_checked_sub(self, st, rt, fn, a, b):
        self.need(a, b)
        ok = self.cd.ge(a - b, st.pc) if 'BigUint' in fn.name and 'BigInt' not in fn.name else self.m.T
        return self.option(rt, ok, a - b, st)

    def n_checked_div(self, st, rt, fn, a, b):
        self.need(a, b)
        z = self.cd.eq(b, ZERO, st.pc)
        v = ZERO
        if not (~z & st.pc).is_false():
            s2 = st.copy()
            s2.pc = st.pc & ~z
            v = self.n_div(s2, None, fn, a, b)
        return self.lift(lambda s, x: self.option(rt, ~z, x, s), (v,), st)

    def n_clamp(self, st, rt, fn, a, lo, hi):
        self.need(a, lo, hi)
        self.I.panic(st, ~self.cd.ge(hi - lo, st.pc), 'clamp of an empty range')
        x, y = self.cd.ge(lo - a - 1, st.pc), self.cd.ge(a - hi - 1, st.pc)
        return mkun([(x, lo), (~x & y, hi), (~x & ~y, a)], self.m)

    def n_not(self, st, rt, fn, a):
        self.need(a)
        return -a - 1

    def n_new(self, st, rt, fn, *args):
        """from a sign and 32-bit digits"""
        d = args[-1]
        if isinstance(d, Opq) and d.name == 'digits':
            v = d.a[0]
        elif isinstance(d, Seq) and all(isinstance(x, Poly) for x in d.e):
            v = ZERO
            for i, x in enumerate(d.e):
                v = v + x.scale(1 << 32 * i)
        else:
            raise Unsupported('digits %r' % (d,))
        return self._signed(st, fn, args, v)
    n_from_slice = n_new

    def n_into_parts(self, st, rt, fn, a):
        self.need(a)
        ts = self.prog.types[rt]['f'][0]
        neg, z = ~self.cd.ge(a, st.pc), self.cd.eq(a, ZERO, st.pc)
        return mkun([(neg, Agg('tuple', (self.sign_enum(ts, self.m.T, self.m.F, st), -a))),
                     (~neg, Agg('tuple', (self.sign_enum(ts, self.m.F, z, st), a)))], self.m)

    def n_is_even(self, st, rt, fn, a):
        return self.cd.eq(T.mod(a, P(2)), ZERO, st.pc)

    def n_is_odd(self, st, rt, fn, a):
        return self.cd.eq(T.mod(a, P(2)), ONE, st.pc)

    def n_abs(self, st, rt, fn, a):
        g = self.cd.ge(a, st.pc)
        return mkun([(g, a), (~g, -a)], self.m)
    n_magnitude = n_abs
    n_into_magnitude = n_abs

    def n_clone(self, st, rt, fn, a):
        return a
    n_to_owned = n_clone
    n_borrow = n_clone
    n_as_ref = n_clone

    def n_clone_from(self, st, rt, fn, a, b):
        return b

    def n_from(self, st, rt, fn, a):
        if isinstance(a, Bdd):
            return self.I.bool2int(a)
        self.need(a)
        if rt is not None and self.prog.tn[rt].startswith('std::sync::Arc<'):
            return ArcV(self.I.alloc(st, a))
        return a
    n_into = n_from

    def n_from_u64(self, st, rt, fn, a):
        self.need(a)
        if rt is None or not self.prog.tn[rt].startswith('std::option::Option<'):
            return a
        ok = self.cd.ge(a, st.pc) if 'BigUint' in self.prog.tn[rt] else self.m.T
        return self.option(rt, ok, a, st)
    n_from_u8 = n_from_u16 = n_from_u32 = n_from_u128 = n_from_usize = n_from_u64
    n_from_i8 = n_from_i16 = n_from_i32 = n_from_i64 = n_from_i128 = n_from_isize = n_from_u64
    n_to_bigint_ = n_from

    def n_eq(self, st, rt, fn, a, b):
        if isinstance(a, EnumV):
            return self.enum_eq(a, b, st)
        self.need(a, b)
        return self.cd.eq(a, b, st.pc)

    def enum_eq(self, a, b, st):
        r = self.m.F
        for g, i, _ in a.alts:
            for h, j, _ in b.alts:
                if i == j:
                    r = r | (g & h)
        return r

    def n_ne(self, st, rt, fn, a, b):
        return ~self.n_eq(st, rt, fn, a, b)

    def n_lt(self, st, rt, fn, a, b):
        return ~self.cd.ge(a - b, st.pc)

    def n_ge(self, st, rt, fn, a, b):
        return self.cd.ge(a - b, st.pc)

    def n_gt(self, st, rt, fn, a, b):
        return ~self.cd.ge(b - a, st.pc)

    def n_le(self, st, rt, fn, a, b):
        return self.cd.ge(b - a, st.pc)

    def n_cmp(self, st, rt, fn, a, b):
        self.need(a, b)
        return self.ordering(a - b, rt, st)

    def n_partial_cmp(self, st, rt, fn, a, b):
        self.need(a, b)
        o = self.ordering(a - b, self.opt_arg(rt), st)
        return EnumV(rt, [(self.m.T, 1, (o,))])

    def n_max(self, st, rt, fn, a, b):
        g = self.cd.ge(a - b - 1, st.pc)
        return mkun([(g, a), (~g, b)], self.m)

    def n_min(self, st, rt, fn, a, b):
        g = self.cd.ge(b - a, st.pc)
        return mkun([(g, a), (~g, b)], self.m)

    def n_pow(self, st, rt, fn, a, b):
        self.need(a, b)
        c = b.const()
        if c is not None and 0 <= c <= 64:
            return a ** int(c)
        raise Unsupported('integer power')

    def n_modpow(self, st, rt, fn, a, e, m):
        self.need(a, e, m)
        self.I.panic(st, ~self.cd.ge(e, st.pc), 'modpow with a negative exponent')
        self.nonzero(st, m)
        if st.pc.is_false():
            return None
        if not self.true(self.cd.ge(m - 1, st.pc), st.pc):
            raise Unsupported('modpow modulo %r' % (m,))
        return self.power(a, e, m, st)

    def power(self, a, e, m, st):
        if e.const() is not None or not T.is_prime_mod(m) or m == P(2):
            return T.power(a, e, m)
        ez = self.cd.eq(e, ZERO, st.pc)
        if (ez & st.pc).is_false():
            return T.power(a, e, m)
        z = self.cd.zero(a, m)
        return mkun([(~z, T.power(a, e, m)), (z & ez, T.mod(ONE, m)), (z & ~ez, ZERO)], self.m)

    def n_modinv(self, st, rt, fn, a, m):
        self.need(a, m)
        if not T.is_prime_mod(m):
            self.nonzero(st, m)
            if st.pc.is_false():
                return None
            if not self.true(self.cd.ge(m - 1, st.pc), st.pc):
                raise Unsupported('modinv modulo %r' % (m,))
            a = T.mod(a, m)
            unit = self.cd.eq(P(T.C.gen('coprime', (a, m), 0, 1)), ONE)
            return self.option(rt, unit, T.mod(P(T.C.gen('modinv', (a, m), 0)), m), st)
        z = self.cd.zero(a, m)
        return self.option(rt, ~z, T.inv(a, m), st)

    def n_bits(self, st, rt, fn, a):
        self.need(a)
        return self.bd.bits(a)

    def n_bit(self, st, rt, fn, a, i):
        self.need(a, i)
        if a.const() is not None and i.const() is not None:
            return self.m.const((int(a.const()) >> int(i.const())) & 1)
        c = i.const()
        if c is not None and 0 <= c <= 64:
            r = T.rem_const(a, 2 << int(c))
            if r is not None:
                return self.m.const(r >> int(c) & 1)
        return self.cd.eq(self.bit_at(a, i), ONE, st.pc)

    def bit_at(self, a, i):
        """bit i of a: of the part above the largest power of two not past i, when the rest is below it"""
        for g in a.gens():
            gg = T.C.gens[g]
            if gg.kind != 'pow2':
                continue
            j = (i - gg.args[0]).const()
            if j is None or not 0 <= j <= 64 or type(j) is not int:
                continue
            hi, lo = {}, {}
            for mm, c in a.d.items():
                if (g, 1) in mm:
                    hi[tuple(x for x in mm if x != (g, 1))] = c
                else:
                    lo[mm] = c
            lo, hi = Poly(lo), Poly(hi)
            h = lo.single_gen()
            n = None
            if h is not None and h.kind in ('leval', 'beval', 'swap'):
                n = h.args[-1].scale(8)
            if lo == ZERO or n is not None and self.cd.ge(gg.args[0] - n).is_true():
                q = T.floordiv(hi, 1 << j)
                return T.mod(q, P(2))
        return T.kbit(a, i)

    def n_set_bit(self, st, rt, fn, a, i, v):
        self.need(a, i)
        if not self.true(self.cd.ge(a, st.pc), st.pc):
            raise Unsupported('set_bit on %r' % (a,))
        b = self.bit_at(a, i)
        return a + (self.I.bool2int(v) - b) * self.bd.pow2(i)

    def n_sign(self, st, rt, fn, a):
        z = self.cd.eq(a, ZERO, st.pc)
        n = ~self.cd.ge(a, st.pc)
        return self.sign_enum(rt, n, z, st)

    def sign_enum(self, rt, n, z, st):
        vs = [v['name'] for v in self.prog.types[rt]['v']]
        return self.enum(rt, [(n, vs.index('Minus'), ()), (z, vs.index('NoSign'), ()),
                              (~n & ~z, vs.index('Plus'), ())], st)

    def n_signum(self, st, rt, fn, a):
        z = self.cd.eq(a, ZERO, st.pc)
        n = ~self.cd.ge(a, st.pc)
        return mkun([(n, P(-1)), (z, ZERO), (~n & ~z, ONE)], self.m)

    def n_to_biguint(self, st, rt, fn, a):
        g = self.cd.ge(a, st.pc)
        return self.option(rt, g, a, st)

    def n_to_bigint(self, st, rt, fn, a):
        return self.option(rt, self.m.T, a, st)

    def _to_int(self, st, rt, fn, a):
        self.need(a)
        lo, hi = self.I.int_range(self.opt_arg(rt))
        g = self.cd.ge(a - lo, st.pc) & self.cd.ge(hi - a, st.pc)
        return self.option(rt, g, a, st)
    def n_to_str_radix(self, st, rt, fn, a, r):
        if r.const() != 10:
            raise Unsupported('text in radix %r' % (r,))
        return mkstr([str(int(a.const()))] if a.const() is not None else [('dec', a)])

    n_to_u8 = n_to_u16 = n_to_u32 = n_to_u64 = n_to_u128 = n_to_usize = _to_int
    n_to_i8 = n_to_i16 = n_to_i32 = n_to_i64 = n_to_i128 = n_to_isize = _to_int

    def n_try_from(self, st, rt, fn, a):
        self.need(a)
        t = self.opt_arg(rt)
        if 'BigUint' in self.prog.tn[t]:
            g = self.cd.ge(a, st.pc)
        elif 'BigInt' in self.prog.tn[t]:
            g = self.m.T
        else:
            lo, hi = self.I.int_range(t)
            g = self.cd.ge(a - lo, st.pc) & self.cd.ge(hi - a, st.pc)
        return self.enum(rt, [(g, 0, (a,)), (~g, 1, (Opq('err'),))], st)
    n_try_into = n_try_from

    def _signed(self, st, fn, args, val):
        """BigInt::from_bytes_*(Sign, ..) / BigUint::from_bytes_*(..)"""
        if len(args) == 2:
            s = args[0]
            if not isinstance(s, EnumV):
                raise Unsupported('sign %r' % (s,))
            names = [v['name'] for v in self.prog.types[s.tid]['v']]
            out = []
            for g, i, _ in s.alts:
                out.append((g, val if names[i] == 'Plus' else -val if names[i] == 'Minus' else ZERO))
            return mkun(out, self.m)
        return val

    def n_from_bytes_be(self, st, rt, fn, *args):
        return self._signed(st, fn, args, self.bd.value(B.as_bytes(args[-1]), True, st.pc))

    def n_from_bytes_le(self, st, rt, fn, *args):
        return self._signed(st, fn, args, self.bd.value(B.as_bytes(args[-1]), False, st.pc))

    def n_from_biguint(self, st, rt, fn, s, a):
        return self._signed(st, fn, (s, a), a)

    def n_to_bytes_be(self, st, rt, fn, a):
        return self._to_bytes(st, rt, fn, a, True)

    def n_to_bytes_le(self, st, rt, fn, a):
        return self._to_bytes(st, rt, fn, a, False)

    def _to_bytes(self, st, rt, fn, a, be):
        self.need(a)
        if rt is not None and self.prog.types[rt]['k'] == 'tuple':
            neg = ~self.cd.ge(a, st.pc)
            if not (neg & st.pc).is_false():
                ts = self.prog.types[rt]['f'][0]
                out = [(neg, Agg('tuple', (self.sign_enum(ts, self.m.T, self.m.F, st), self.bd.minimal(-a, be))))]
                if not (~neg & st.pc).is_false():
                    out.append((~neg, Agg('tuple', (self.sign_enum(ts, self.m.F, self.cd.eq(a, ZERO, st.pc), st),
                                                    self.bd.minimal(a, be)))))
                return mkun(out, self.m)
            sign = self.sign_enum(self.prog.types[rt]['f'][0], self.m.F, self.cd.eq(a, ZERO, st.pc), st)
            return Agg('tuple', (sign, self.bd.minimal(a, be)))
        return self.bd.minimal(a, be)

    def n_to_radix_be(self, st, rt, fn, a, radix):
        if radix.const() != 256:
            raise Unsupported('digits in radix %r' % (radix,))
        return self._to_bytes(st, rt, fn, a, True)

    def n_to_radix_le(self, st, rt, fn, a, radix):
        if radix.const() != 256:
            raise Unsupported('digits in radix %r' % (radix,))
        return self._to_bytes(st, rt, fn, a, False)

    def n_from_radix_be(self, st, rt, fn, *args):
        if args[-1].const() != 256:
            raise Unsupported('digits in radix %r' % (args[-1],))
        v = self.n_from_bytes_be(st, rt, fn, *args[:-1])
        return self.lift(lambda s, x: self.option(rt, self.m.T, x, s), (v,), st)

    def n_from_radix_le(self, st, rt, fn, *args):
        if args[-1].const() != 256:
            raise Unsupported('digits in radix %r' % (args[-1],))
        v = self.n_from_bytes_le(st, rt, fn, *args[:-1])
        return self.lift(lambda s, x: self.option(rt, self.m.T, x, s), (v,), st)

    def n_to_u32_digits(self, st, rt, fn, a):
        self.need(a)
        if rt is not None and self.prog.types[rt]['k'] == 'tuple':
            n = ~self.cd.ge(a, st.pc)
            z = self.cd.eq(a, ZERO, st.pc)
            return Agg('tuple', (self.sign_enum(self.prog.types[rt]['f'][0], n, z, st),
                                 self._digits(st, a)))
        return self._digits(st, a)

    def n_to_u64_digits(self, st, rt, fn, a):
        v = self.n_to_u32_digits(st, rt, fn, a)

        def wide(s, x):
            if isinstance(x, Opq) and x.name == 'digits':
                return Opq('digits64', x.a[0])
            e = [int(y.const()) for y in x.e] + [0]
            return Seq([P(e[i] + (e[i + 1] << 32)) for i in range(0, len(e) - 1, 2)])
        if isinstance(v, Agg):
            return Agg('tuple', (v.f[0], self.lift(wide, (v.f[1],), st)))
        return self.lift(wide, (v,), st)

    def n_iter_u64_digits(self, st, rt, fn, a):
        d = self.n_to_u64_digits(st, None, fn, a)
        return self.lift(lambda s, v: IterV('vec', v, ZERO, self.seq_len(v, s)), (d,), st)

    def n_iter_u32_digits(self, st, rt, fn, a):
        d = self._digits(st, a)
        return self.lift(lambda s, v: IterV('vec', v, ZERO, self.seq_len(v, s)), (d,), st)

    def _digits(self, st, a):
        neg = ~self.cd.ge(a, st.pc)
        if not (neg & st.pc).is_false():
            return mkun([(~neg, self._digits1(a)), (neg, self._digits1(-a))], self.m)
        return self._digits1(a)

    def _digits1(self, a):
        c = a.const()
        if c is not None:
            c = int(c)
            out = []
            while c:
                out.append(P(c & 0xffffffff))
                c >>= 32
            return Seq(out)
        return Opq('digits', a)

    def n_parse_bytes(self, st, rt, fn, s, radix):
        r = radix.const()
        if r is None:
            raise Unsupported('radix %r' % (radix,))
        ok, v = self.numeral(s, int(r), st)
        if v is None:
            return self.option(rt, self.m.F, ZERO, st)
        return self.option(rt, ok, v, st)

    def n_from_str(self, st, rt, fn, s):
        ok, v = self.numeral(s, 10, st)
        if v is None:
            return self.enum(rt, [(self.m.T, 1, (Opq('err'),))], st)
        return self.enum(rt, [(ok, 0, (v,)), (~ok, 1, (Opq('err'),))], st)

    def n_from_str_radix(self, st, rt, fn, s, radix):
        ok, v = self.numeral(s, int(radix.const()), st)
        if v is None:
            return self.enum(rt, [(self.m.T, 1, (Opq('err'),))], st)
        return self.enum(rt, [(ok, 0, (v,)), (~ok, 1, (Opq('err'),))], st)

    def numeral(self, s, radix, st):
        """(guard, value) of the numeral in the given radix, value None when malformed"""
        if isinstance(s, Opq) and s.name == 'strbytes':
            s = s.a[0]
        if isinstance(s, (Bytes, Seq)):
            b = B.as_bytes(s)
            txt = []
            for x in b.segs:
                if x[0] != 'b' or x[1].const() is None:
                    raise Unsupported('numeral %r' % (s,))
                txt.append(chr(int(x[1].const())))
            s = Str(''.join(txt))
        p = pieces(s)
        sign = 1
        p = list(p)
        if p and isinstance(p[0], str):
            if p[0][:1] in '+-' and p[0]:
                sign = -1 if p[0][0] == '-' else 1
                p[0] = p[0][1:]
                if not p[0]:
                    p.pop(0)
                if p and isinstance(p[0], str) and p[0][:1] in ('+', '-'):
                    return self.m.F, None
        if not p:
            return self.m.F, None
        if len(p) == 1 and isinstance(p[0], str):
            t = p[0].replace('_', '')
            try:
                if p[0].startswith('_'):
                    raise ValueError
                v = int(t, radix) if not t[:2].lower() in ('0x', '0o', '0b') or radix == 16 and t[:2].lower() == '0b' \
                    else None
                if v is None:
                    raise ValueError
            except ValueError:
                return self.m.F, None
            return self.m.T, P(sign * v)
        if len(p) == 1 and p[0][0] == 'num':
            if len(p[0]) > 3 and p[0][2] == radix:
                v = p[0][3]
            else:
                v = P(T.C.gen('numval', (p[0][1], radix), 0, None))
            return self.m.T, v.scale(sign)
        digits = '0123456789abcdefghijklmnopqrstuvwxyz'[:radix] + '_'
        if any(isinstance(x, str) and x.lower().strip(digits) for x in p):
            return self.m.F, None
        if all(isinstance(x, str) or x[0] in ('num',) for x in p):
            v = P(T.C.gen('numval', (repr(p), radix), 0, None))
            return self.m.T, v.scale(sign)
        if len(p) == 1 and p[0][0] == 'dec' and radix == 10:
            return self.m.T, p[0][1].scale(sign)
        raise Unsupported('numeral %r' % (s,))

    # =================================================================== Arc / OnceLock / Box
    def arc_new(self, fn, args, st, rt, term):
        return ArcV(self.I.alloc(st, args[0]))

    def arc_clone(self, fn, args, st, rt, term):
        return self.val(args[0], st)

    def arc_deref(self, fn, args, st, rt, term):
        return self.lift(lambda s, a: Ptr(a.obj), (self.val(args[0], st),), st)

    def arc_ptr_eq(self, fn, args, st, rt, term):
        return self.lift(lambda s, a, b: self.m.const(a.obj == b.obj),
                         (self.val(args[0], st), self.val(args[1], st)), st)

    def arc_eq(self, fn, args, st, rt, term):
        t = re.match(r'^<std::sync::Arc<(.*)> as ', fn.name).group(1)
        neg = fn.name.endswith('::ne')

        def f(s, a, b):
            r = self.eq_of(t, Ptr(a.obj), Ptr(b.obj), s)
            return ~r if neg else r
        return self.lift(f, (self.val(args[0], st), self.val(args[1], st)), st)

    def eq_of(self, t, a, b, st):
        g = self.prog.byname.get('<%s as std::cmp::PartialEq>::eq' % t)
        if not g:
            if t in INTS or t in ('bool', 'char') or 'num_bigint' in t:
                x, y = self.val(a, st), self.val(b, st)
                return self.lift(lambda s, x, y: self.cd.eq(x, y, s.pc) if isinstance(x, Poly) else x.iff(y), (x, y), st)
            raise Unsupported('equality of %s' % t)
        return self.I.call_fn(g[0], [a, b], st)

    def once_new(self, fn, args, st, rt, term):
        return Opq('once')

    def once_get(self, fn, args, st, rt, term):
        self.get_or_init_sites.append(fn.name)
        p = args[0]
        if not isinstance(p, Ptr):
            raise Unsupported('a cell reached through several references')
        loc = ('m', p.obj, p.path, None)

        def one(s, c):
            if c != Opq('once'):
                return c.f[0]
            v = self.call_value(args[1], [], s)
            # unless the history of the cell is tracked, the initialiser is evaluated afresh every
            # time (C41 shows that its result only depends on what the cell's owner holds)
            if v is not None and getattr(self, 'track_cells', False):
                self.I.write_loc(loc, Agg(('once',), (v,)), s)
            return v
        v = self.forks(one, (self.I.read_loc(loc, st),), st)
        if v is None or st.pc.is_false():
            return None
        return Ptr(self.I.alloc(st, v))

    def once_default(self, fn, args, st, rt, term):
        return Agg(('once',), (args[0],)) if args else Opq('once')

    def once_read(self, fn, args, st, rt, term):
        c = self.val(args[0], st)
        alts = []
        for g, x in self.I.alts(c, st.pc) if isinstance(c, Un) else ((self.m.T, c),):
            if x == Opq('once'):
                alts.append((g, 0, ()))
            else:
                alts.append((g, 1, (Ptr(self.I.alloc(st, x.f[0])),)))
        by = {}
        for g, i, f in alts:
            by.setdefault(i, []).append((g, f))
        out = []
        for i in sorted(by):
            gor = self.m.F
            for g, _ in by[i]:
                gor = gor | g
            out.append((gor, i, (mkun([(g, f[0]) for g, f in by[i]], self.m),) if i else ()))
        return self.enum(rt, out, st)

    def once_set(self, fn, args, st, rt, term):
        p = args[0]
        if not isinstance(p, Ptr):
            raise Unsupported('a cell reached through several references')
        loc = ('m', p.obj, p.path, None)
        c = self.I.read_loc(loc, st)
        empty = self.m.F
        for g, x in c.alts if isinstance(c, Un) else ((self.m.T, c),):
            if x == Opq('once'):
                empty = empty | g
        if not (empty & st.pc).is_false():
            self.I.write_loc(loc, mkun([(empty, Agg(('once',), (args[1],))), (~empty, c)], self.m), st)
        return self.enum(rt, [(empty, 0, (UNIT,)), (~empty, 1, (args[1],))], st)

    def mutex_new(self, fn, args, st, rt, term):
        return Agg(('mutex',), (args[0],))

    def mutex_lock(self, fn, args, st, rt, term):
        p = args[0]
        if not isinstance(p, Ptr):
            raise Unsupported('a lock reached through several references')
        return self.enum(rt, [(self.m.T, 0, (Ptr(p.obj, p.path + (('f', 0),)),))], st)

    def guard_deref(self, fn, args, st, rt, term):
        return self.I.read_loc(('m', args[0].obj, args[0].path, args[0].sl), st)

    def call_value(self, f, args, st):
        """call a closure / function value"""
        if isinstance(f, Ptr):
            f = self.val(f, st)
        return self.I.call(f, args, st)

    def box_new(self, fn, args, st, rt, term):
        return BoxV(self.I.alloc(st, args[0]))

    def box_uninit(self, fn, args, st, rt, term):
        return BoxV(self.I.alloc(st, UNINIT))

    def box_vec(self, fn, args, st, rt, term):
        return st.mem[args[0].obj]

    def box_ref(self, fn, args, st, rt, term):
        def f(s, b):
            p = Ptr(b.obj)
            if b.dty is not None:
                self.I.dynty[(b.obj, ())] = b.dty
            return p
        v = args[0]
        while isinstance(v, Ptr):
            v = self.I.read_loc(('m', v.obj, v.path, None), st)
        return self.lift(f, (v,), st)

    # =================================================================== vectors
    def vec_new(self, fn, args, st, rt, term):
        return Seq(())

    def vec_from_elem(self, fn, args, st, rt, term):
        def f(s, v, n):
            c = n.const()
            if c is not None and c <= 64:
                return Seq([v] * int(c))
            if isinstance(v, Poly):
                return B.normal([('rep', v, n)])
            raise Unsupported('vector of unknown length')
        return self.lift(f, (args[0], args[1]), st)

    def whole(self, a, st):
        """the sequence a reference (or value) denotes"""
        return self.val(a, st)

    def vec_len(self, fn, args, st, rt, term):
        a = args[0]

        def f(s, p):
            if isinstance(p, Ptr) and p.sl:
                return p.sl[1]
            return self.seq_len(self.val(p, s), s)
        r = self.lift(f, (a,), st)
        return r

    def vec_is_empty(self, fn, args, st, rt, term):
        n = self.vec_len(fn, args, st, rt, term)
        return self.lift(lambda s, x: self.cd.eq(x, ZERO, s.pc), (n,), st)

    def setp(self, p, v, st):
        if not isinstance(p, Ptr):
            raise Unsupported('update through %r' % (p,))
        self.I.write_loc(('m', p.obj, p.path, None), v, st)

    def spread(self, v, st):
        """sequence with alternative items as alternatives of sequences"""
        if not isinstance(v, Seq) or not any(isinstance(x, Un) for x in v.e):
            return v
        out = [(self.m.T, ())]
        for x in v.e:
            out = [(g & h, e + (y,)) for g, e in out
                   for h, y in (self.I.alts(x, st.pc & g) if isinstance(x, Un) else [(self.m.T, x)])
                   if not (g & h & st.pc).is_false()]
            if len(out) > 16:
                return v
        return Un([(g, Seq(e)) for g, e in out])

    def concat(self, a, b, st):
        if isinstance(a, Seq) and isinstance(b, Seq):
            return Seq(a.e + b.e)
        a, b = self.spread(a, st), self.spread(b, st)
        if isinstance(a, Un) or isinstance(b, Un):
            return self.lift(lambda s, x, y: self.concat(x, y, s), (a, b), st)
        if isinstance(a, Seq) and not a.e:
            return b
        if isinstance(b, Seq) and not b.e:
            return a
        return B.normal(B.as_bytes(a).segs + B.as_bytes(b).segs)

    def update(self, p, f, st, *more):
        """value at p := f(state, old, ...)"""
        if isinstance(p, Un):
            return self.forks(lambda s, q: self.update(q, f, s, *more), (p,), st)
        old = self.I.read_loc(('m', p.obj, p.path, None), st)
        r = self.lift(f, (old,) + more, st)
        if r is None:
            return None
        self.setp(p, r, st)
        return UNIT

    def vec_append(self, fn, args, st, rt, term):
        other = self.whole(args[1], st)
        r = self.update(args[0], lambda s, a, b: self.concat(a, b, s), st, other)
        self.setp(args[1], Seq(()), st)
        return r

    def vec_extend(self, fn, args, st, rt, term):
        return self.update(args[0], lambda s, a, b: self.concat(a, b, s), st, self.whole(args[1], st))

    def vec_extend_iter(self, fn, args, st, rt, term):
        it = self.as_iter(args[1], st)
        if re.search(r'Extend<&', fn.name):
            it = self.lift(lambda s, x: x if isinstance(x, IterV) and x.kind == 'copied' else IterV('copied', x), (it,), st)
        seq = self.collect(it, st)
        return self.update(args[0], lambda s, a, b: self.concat(a, b, s), st, seq)

    def vec_remove(self, fn, args, st, rt, term):
        p = args[0]

        def f(s, v, i):
            n = self.seq_len(v, s)
            self.I.panic(s, ~(self.cd.ge(n - i - 1, s.pc) & self.cd.ge(i, s.pc)), 'remove out of bounds')
            if s.pc.is_false():
                return None
            x = self.seq_get(v, i, s)
            a, b = self.slice_val(v, (ZERO, i), s), self.slice_val(v, (i + 1, n - i - 1), s)
            self.setp(p, self.lift(lambda t, y, z: self.concat(y, z, t), (a, b), s), s)
            return x
        return self.forks(f, (self.spread(self.whole(p, st), st), args[1]), st)

    def slice_strip(self, fn, args, st, rt, term):
        p = args[0]
        n = p.sl[1] if p.sl else self.seq_len(self.val(p, st), st)
        off = p.sl[0] if p.sl else ZERO
        end = method_of(re.sub(r'::<.*', '', fn.name)) == 'strip_suffix'
        k = self.seq_len(self.whole(args[1], st), st)
        if isinstance(n, Un) or isinstance(off, Un) or isinstance(k, Un):
            raise Unsupported('strip of a union')
        g = self.slice_ends(end, args, st)
        return self.lift(lambda s, c: self.option(rt, c, Ptr(p.obj, p.path, (off if end else off + k, n - k)), s), (g,), st)

    def int_bytes(self, fn, args, st, rt, term):
        m = method_of(fn.name)
        n = int(re.search(r'impl [ui](\d+|size)>', fn.name).group(1).replace('size', '64')) // 8
        be = m.endswith('be_bytes')

        def f(s, v):
            if m.startswith('to'):
                if not self.true(self.cd.ge(v, s.pc), s.pc):
                    raise Unsupported('bytes of a negative integer')
                return B.normal([('be' if be else 'le', v, P(n))])
            return self.I.wrap(self.bd.value(B.as_bytes(v), be, s.pc), rt, s.pc)
        return self.lift(f, (self.whole(args[0], st),), st)

    def write_all(self, fn, args, st, rt, term):
        self.vec_extend(fn, args, st, None, term)
        n = self.seq_len(self.whole(args[1], st), st)
        return self.enum(rt, [(self.m.T, 0, (UNIT if fn.name.endswith('write_all') else n,))], st)

    def vec_push(self, fn, args, st, rt, term):
        v = args[1]

        def f(s, a):
            if isinstance(a, Seq):
                return Seq(a.e + (v,))
            return self.concat(a, Seq((v,)), s)
        return self.update(args[0], f, st)

    def vec_pop(self, fn, args, st, rt, term):
        v = self.whole(args[0], st)
        if isinstance(v, Seq):
            if not v.e:
                return self.option(rt, self.m.F, UNIT, st)
            self.setp(args[0], Seq(v.e[:-1]), st)
            return self.option(rt, self.m.T, v.e[-1], st)
        if isinstance(v, Bytes):
            n = B.length(v)
            if not self.bd.geq(n - 1, st.pc):
                raise Unsupported('pop from %r' % (v,))
            top = self.bd.get(v, n - 1, st.pc)
            self.setp(args[0], self.bd.sub(v, ZERO, n - 1, st.pc), st)
            return self.option(rt, self.m.T, top, st)
        raise Unsupported('pop from %r' % (v,))

    def vec_insert(self, fn, args, st, rt, term):
        v = args[2]

        def f(s, a, i):
            c = i.const()
            if isinstance(a, Seq) and c is not None:
                e = list(a.e)
                e.insert(int(c), v)
                return Seq(e)
            if c == 0:
                return self.concat(Seq((v,)), a, s)
            raise Unsupported('insert')
        return self.update(args[0], f, st, args[1])

    def vec_clear(self, fn, args, st, rt, term):
        self.setp(args[0], Seq(()), st)
        return UNIT

    def vec_drain(self, fn, args, st, rt, term):
        p = args[0]
        off = method_of(fn.name) == 'split_off'

        def f(s, v, r):
            n = self.seq_len(v, s)
            if isinstance(n, Un):
                raise Unsupported('drain of a vector of unknown length')
            lo, hi = (r, n) if off else self.range_of(r, n)
            ok = self.cd.ge(hi - lo, s.pc) & self.cd.ge(n - hi, s.pc)
            self.I.panic(s, ~ok, 'drain out of bounds')
            if s.pc.is_false():
                return None
            if lo == ZERO and hi == n:
                self.setp(p, Seq(()), s)
                return v
            out = self.slice_val(v, (lo, hi - lo), s)
            a, b = self.slice_val(v, (ZERO, lo), s), self.slice_val(v, (hi, n - hi), s)
            self.setp(p, self.lift(lambda t, x, y: self.concat(x, y, t), (a, b), s), s)
            return out
        v = self.forks(f, (self.spread(self.whole(p, st), st), args[1]), st)
        if v is None or off:
            return v
        return self.lift(lambda s, x: IterV('vec', x, ZERO, self.seq_len(x, s)), (v,), st)

    def vec_resize(self, fn, args, st, rt, term):
        v = args[2]

        def f(s, a, n):
            L = self.seq_len(a, s)
            if L.const() is not None and n.const() is not None and isinstance(a, Seq):
                k, m = int(L.const()), int(n.const())
                return Seq(a.e[:m] + (v,) * max(0, m - k))
            grow = self.cd.ge(n - L, s.pc)
            out = []
            if not (grow & s.pc).is_false():
                out.append((grow, B.normal(B.as_bytes(a).segs + (('rep', v, n - L),))))
            if not (~grow & s.pc).is_false():
                out.append((~grow, self.bd.sub(B.as_bytes(a), ZERO, n, s.pc & ~grow)))
            return mkun(out, self.m)
        return self.update(args[0], f, st, args[1])

    def vec_truncate(self, fn, args, st, rt, term):
        def f(s, a, n):
            L = self.seq_len(a, s)
            less = self.cd.ge(L - n, s.pc)
            out = []
            if not (less & s.pc).is_false():
                if isinstance(a, Seq) and n.const() is not None:
                    out.append((less, Seq(a.e[:int(n.const())])))
                else:
                    out.append((less, self.bd.sub(B.as_bytes(a), ZERO, n, s.pc & less)))
            if not (~less & s.pc).is_false():
                out.append((~less, a))
            return mkun(out, self.m)
        return self.update(args[0], f, st, args[1])

    def vec_deref(self, fn, args, st, rt, term):
        def f(s, p):
            while True:
                x = self.I.read_loc(('m', p.obj, p.path, None), s)
                if isinstance(x, Ptr):
                    p = x
                    continue
                break
            n = self.seq_len(x, s)
            if isinstance(n, Un):
                return Ptr(p.obj, p.path)
            return Ptr(p.obj, p.path, (ZERO, n))
        return self.lift(f, (args[0],), st)

    def vec_index(self, fn, args, st, rt, term):
        return self.index_value(args[0], args[1], st)

    def slice_index(self, fn, args, st, rt, term):
        return self.index_value(args[1], args[0], st)

    def slice_get(self, fn, args, st, rt, term):
        meth = method_of(fn.name)
        p = args[0]
        n = p.sl[1] if p.sl else self.seq_len(self.val(p, st), st)
        off = p.sl[0] if p.sl else ZERO
        if isinstance(n, Un) or isinstance(off, Un):
            return self.lift(lambda s, o, l: self.slice_get(fn, [Ptr(p.obj, p.path, (o, l))] + args[1:], s, rt, term),
                             (off, n), st)
        if meth.startswith('first'):
            ix = ZERO
        elif meth.startswith('last'):
            ix = n - 1
        else:
            ix = self.val(args[1], st)
        if isinstance(ix, Poly):
            ok = self.cd.ge(ix, st.pc) & self.cd.ge(n - ix - 1, st.pc)
            return self.option(rt, ok, Ptr(p.obj, p.path + (('i', off + ix),)), st)
        lo, hi = self.range_of(ix, n)
        ok = self.cd.ge(hi - lo, st.pc) & self.cd.ge(n - hi, st.pc)
        return self.option(rt, ok, Ptr(p.obj, p.path, (off + lo, hi - lo)), st)

    def slice_split_at(self, fn, args, st, rt, term):
        p, mid = args[0], args[1]
        off, n = p.sl if p.sl else (ZERO, self.seq_len(self.val(p, st), st))
        if isinstance(n, Un) or isinstance(mid, Un) or isinstance(off, Un):
            return self.forks(lambda s, o, l, k: self.slice_split_at(fn, [Ptr(p.obj, p.path, (o, l)), k], s, rt, term),
                              (off, n, mid), st)
        self.I.panic(st, ~(self.cd.ge(n - mid, st.pc) & self.cd.ge(mid, st.pc)), 'split_at out of bounds')
        if st.pc.is_false():
            return None
        return Agg('tuple', (Ptr(p.obj, p.path, (off, mid)), Ptr(p.obj, p.path, (off + mid, n - mid))))

    def to_vec(self, fn, args, st, rt, term):
        return self.clone_seq(fn, self.whole(args[0], st), st)

    def to_owned(self, fn, args, st, rt, term):
        v = self.val(args[0], st)
        return v

    def clone_seq(self, fn, v, st):
        """element-wise clone: crate types through their Clone implementation"""
        def f(s, x):
            if not isinstance(x, Seq):
                return x
            m = re.search(r'(?:Vec<|\[)(redox_ecc::[\w:]+)', fn.name)
            if m:
                g = self.prog.byname.get('<%s as std::clone::Clone>::clone' % m.group(1))
                if g:
                    out = []
                    for e in x.e:
                        o = self.I.alloc(s, e, 'tmp')
                        out.append(self.I.call_fn(g[0], [Ptr(o)], s))
                    return Seq(out)
            return x
        return self.lift(f, (v,), st)

    def vec_clone(self, fn, args, st, rt, term):
        return self.clone_seq(fn, self.whole(args[0], st), st)

    def array_map(self, fn, args, st, rt, term):
        a = args[0]
        if not isinstance(a, Seq):
            raise Unsupported('map of %r' % (a,))
        fo = self.tmp(args[1], st)
        out = []
        for x in a.e:
            r = self.call_fnmut(fo, self.I.read_loc(('m', fo.obj, fo.path, None), st), [x], st)
            if r is None:
                return None
            out.append(r)
        return Seq(tuple(out))

    def array_from_fn(self, fn, args, st, rt, term):
        m = re.search(r'; (\d+)\]$', self.prog.tn[rt])
        if not m:
            raise Unsupported('array::from_fn of %s' % self.prog.tn[rt])
        fo = self.tmp(args[0], st)
        out = []
        for i in range(int(m.group(1))):
            r = self.call_fnmut(fo, self.I.read_loc(('m', fo.obj, fo.path, None), st), [P(i)], st)
            if r is None:
                return None
            out.append(r)
        return Seq(tuple(out))

    def array_view(self, fn, args, st, rt, term):
        p = args[0]
        if fn.name.endswith(('as_slice', 'as_mut_slice')):
            return p
        n = self.seq_len(self.val(p, st), st).const()
        return Seq(tuple(Ptr(p.obj, p.path + (('i', P(i)),)) for i in range(int(n))))

    def vec_reverse(self, fn, args, st, rt, term):
        p = args[0]

        def f(s, a):
            L = self.seq_len(a, s)
            if p.sl and not (self.bd.eqz(p.sl[0], s.pc) and self.bd.eqz(p.sl[1] - L, s.pc)):
                raise Unsupported('reversal of a part')
            if isinstance(a, Seq):
                return Seq(tuple(reversed(a.e)))
            if isinstance(a, Opq) and a.name == 'bitseq':
                return Opq('bitseq', a.a[0], not a.a[1])
            return B.reverse(B.as_bytes(a))
        if isinstance(p, Un):
            def one(s, q):
                nonlocal p
                p = q
                return self.update(q, f, s)
            return self.forks(one, (p,), st)
        return self.update(p, f, st)

    def copy_from_slice(self, fn, args, st, rt, term):
        p, src = args[0], self.whole(args[1], st)

        def f(s, a, b):
            n = self.seq_len(b, s)
            off, m = p.sl if p.sl else (ZERO, self.seq_len(a, s))
            self.I.panic(s, ~self.cd.eq(n, m, s.pc), 'copy_from_slice length mismatch')
            if s.pc.is_false():
                return None
            return self.splice(a, off, m, b, s)
        return self.update(p, f, st, src)

    def splice(self, a, off, m, b, st):
        L = self.seq_len(a, st)
        if isinstance(a, Seq) and isinstance(b, Seq) and off.const() is not None:
            o = int(off.const())
            return Seq(a.e[:o] + b.e + a.e[o + len(b.e):])
        a = B.as_bytes(a)
        left = self.bd.sub(a, ZERO, off, st.pc)
        right = self.bd.sub(a, off + m, L - off - m, st.pc)
        return B.normal(left.segs + B.as_bytes(b).segs + right.segs)

    def slice_fill(self, fn, args, st, rt, term):
        p, v = args

        def f(s, a):
            off, m = p.sl if p.sl else (ZERO, self.seq_len(a, s))
            return self.splice(a, off, m, B.normal([('rep', v, m)]), s)
        return self.update(p, f, st)

    def slice_swap(self, fn, args, st, rt, term):
        p, i, j = args
        off = p.sl[0] if p.sl else ZERO

        def f(s, a, i, j):
            x, y = self.seq_get(a, off + i, s), self.seq_get(a, off + j, s)
            a = self.seq_set(a, off + i, lambda o: y, s)
            return self.seq_set(a, off + j, lambda o: x, s)
        return self.update(p, f, st, i, j)

    def slice_concat(self, fn, args, st, rt, term):
        v = self.whole(args[0], st)
        if not isinstance(v, Seq):
            raise Unsupported('concat of %r' % (v,))
        out = Seq(())
        for x in v.e:
            y = self.val(x, st)
            out = self.lift(lambda s, a, b: self.concat(a, b, s), (out, y), st)
        return out

    def slice_starts(self, fn, args, st, rt, term):
        return self.slice_ends(method_of(fn.name) == 'ends_with', args, st)

    def slice_ends(self, end, args, st):

        def f(s, a, b):
            if not isinstance(b, Seq) or not isinstance(a, (Seq, Bytes)):
                raise Unsupported('starts_with')
            n, k = self.seq_len(a, s), len(b.e)
            r = self.cd.ge(n - k, s.pc)
            s2 = s.copy()
            s2.pc = s.pc & r
            for i, y in enumerate(b.e):
                if s2.pc.is_false():
                    return self.m.F
                x = self.seq_get(a, (n - k + i) if end else P(i), s2)
                r = r & self.cd.eq(x, y, s2.pc)
            return r
        return self.lift(f, (self.whole(args[0], st), self.whole(args[1], st)), st)

    def slice_contains(self, fn, args, st, rt, term):
        t = re.search(r'<impl \[(.*)\]>::contains', fn.name).group(1)

        def f(s, a):
            if isinstance(a, Bytes) and self.seq_len(a, s).const() is not None and self.seq_len(a, s).const() <= 64:
                a = Seq([self.seq_get(a, P(i), s) for i in range(int(self.seq_len(a, s).const()))])
            if not isinstance(a, Seq):
                raise Unsupported('contains on %r' % (a,))
            r = self.m.F
            for x in a.e:
                r = r | self.eq_of(t, Ptr(self.I.alloc(s, x, 'tmp')), args[1], s)
            return r
        return self.lift(f, (self.whole(args[0], st),), st)

    def vec_eq(self, fn, args, st, rt, term):
        neg = fn.name.endswith('::ne')
        m = re.search(r'for (?:std::vec::Vec<|\[)(.*?)(?:>|\]|;)', fn.name)
        t = m.group(1) if m else ''

        def f(s, a, b):
            if isinstance(a, Seq) and isinstance(b, Seq):
                if len(a.e) != len(b.e):
                    return self.m.F
                r = self.m.T
                for x, y in zip(a.e, b.e):
                    ox, oy = self.I.alloc(s, x, 'tmp'), self.I.alloc(s, y, 'tmp')
                    r = r & self.eq_of(t, Ptr(ox), Ptr(oy), s)
                return r
            a, b = B.as_bytes(a), B.as_bytes(b)
            if self.bd.equal(a, b, s.pc):
                return self.m.T
            return self.m.var(('beq', a, b))
        r = self.lift(f, (self.whole(args[0], st), self.whole(args[1], st)), st)
        return ~r if neg else r

    # =================================================================== iterators
    def identity(self, fn, args, st, rt, term):
        return args[0]

    def slice_iter(self, fn, args, st, rt, term):
        def f(s, p):
            while isinstance(p, Ptr):
                x = self.I.read_loc(('m', p.obj, p.path, None), s)
                if isinstance(x, Ptr) and p.sl is None:
                    p = x
                    continue
                break
            if p.sl:
                off, n = p.sl
            else:
                off, n = ZERO, self.seq_len(x, s)
            return self.lift(lambda s2, nn: IterV('slice', Ptr(p.obj, p.path), off, off + nn), (n,), s)
        return self.lift(f, (args[0],), st)

    def vec_into_iter(self, fn, args, st, rt, term):
        def f(s, v):
            return IterV('vec', v, ZERO, self.seq_len(v, s))
        return self.lift(f, (args[0],), st)

    def slice_chunks(self, fn, args, st, rt, term):
        n = args[1]

        def one(s, p, n):
            off, l = p.sl if p.sl else (ZERO, self.seq_len(self.val(p, s), s))
            return self.lift(lambda s2, ll, nn: IterV('chunks', Ptr(p.obj, p.path), off, off + ll, nn,
                                                      method_of(fn.name) == 'chunks_exact'), (l, n), s)
        return self.lift(one, (args[0], n), st)

    def iter_source(self, fn, args, st, rt, term):
        m = method_of(fn.name)
        if m == 'zip':
            return IterV('zip', self.as_iter(args[0], st), self.as_iter(args[1], st))
        if m == 'once':
            return IterV('vec', Seq((args[0],)), ZERO, ONE)
        if m == 'repeat_n':
            return IterV('repn', args[0], ZERO, args[1])
        if m == 'repeat':
            return IterV('rep', args[0])
        if m == 'from_fn':
            return IterV('fromfn', args[0])
        if m == 'successors':
            return IterV('succ', args[0], args[1])
        raise Unsupported(fn.name)

    def as_iter(self, v, st):
        """IntoIterator on a value"""
        if isinstance(v, Ptr):
            x = self.I.read_loc(('m', v.obj, v.path, None), st)
            if isinstance(x, (Seq, Bytes)) or isinstance(x, Opq) and x.name in ('digits', 'digits64', 'subseq', 'strbytes'):
                off, n = v.sl if v.sl else (ZERO, self.seq_len(x, st))
                return IterV('slice', Ptr(v.obj, v.path), off, off + n)
            return IterV('byref', v)
        if isinstance(v, (Seq, Bytes)):
            return IterV('vec', v, ZERO, self.seq_len(v, st))
        return v

    def iter_method(self, fn, args, st, rt, term):
        m = method_of(fn.name)
        if m in ('next', 'spec_next'):
            return self.lift_iter(args[0], st, rt, False)
        if m in ('next_back', 'spec_next_back'):
            return self.lift_iter(args[0], st, rt, True)
        it = args[0]
        if m in ('rev', 'enumerate', 'copied', 'cloned', 'by_ref', 'fuse', 'peekable'):
            if m == 'by_ref':
                return it
            if m == 'fuse':
                return it
            if m in ('copied', 'cloned'):
                return IterV('copied', it)
            if m == 'rev':
                return IterV('rev', it)
            if m == 'enumerate':
                return IterV('enum', it, ZERO)
            raise Unsupported(m)
        if m == 'map':
            return IterV('map', it, args[1])
        if m == 'zip':
            return IterV('zip', it, self.as_iter(args[1], st))
        if m == 'chain':
            return IterV('chain', it, self.as_iter(args[1], st))
        if m in ('skip', 'take'):
            return IterV(m, it, args[1])
        if m in ('filter', 'filter_map', 'flat_map', 'take_while', 'skip_while', 'map_while', 'inspect'):
            return IterV(m, it, args[1], None) if m == 'flat_map' else IterV(m, it, args[1])
        if m == 'flatten':
            return IterV('flat_map', it, None, None)
        if m == 'collect':
            tn = self.prog.tn[rt]
            if tn.startswith(('std::result::Result<std::vec::Vec<', 'std::option::Option<std::vec::Vec<')):
                return self.collect_try(it, st, rt)
            seq = self.collect(it, st)
            if tn == 'std::string::String':
                out = Str('')
                for x in seq.e:
                    out = self.lift(lambda s, a, b: mkstr(list(pieces(a)) + (
                        [self.pattern(b, s)] if isinstance(b, Poly) else list(pieces(b)))), (out, self.get_str(x, st)), st)
                return out
            if not ('Vec<' in tn or 'Box<[' in tn) or tn.startswith('std::result') or tn.startswith('std::option'):
                raise Unsupported('collect into %s' % tn)
            return seq
        if m in ('fold', 'try_fold', 'for_each', 'all', 'any', 'count', 'last', 'sum', 'product', 'nth', 'position', 'rfold',
                 'find', 'find_map', 'rfind', 'reduce'):
            return self.iter_consume(m, fn, args, st, rt)
        if m == 'len':
            v = self.val(it, st)
            return self.iter_len(v, st)
        if m == 'size_hint':
            raise Unsupported('size_hint')
        if m == 'into_iter':
            return it
        return NotImplemented

    def iter_len(self, v, st):
        if isinstance(v, Agg) and len(v.f) == 2:
            return v.f[1] - v.f[0]
        if isinstance(v, IterV) and v.kind in ('slice', 'vec', 'repn', 'bitsof'):
            return v.a[-1] - v.a[-2]
        if isinstance(v, IterV) and v.kind in ('rev', 'map', 'copied', 'enum'):
            return self.iter_len(v.a[0], st)
        raise Unsupported('length of %r' % (v,))

    def lift_iter(self, p, st, rt, back):
        """next on the iterator at p; Option result"""
        g, v = self.step_iter(p, st, back)
        if st.pc.is_false():
            return None
        return self.option(rt, g, v, st)

    def step_iter(self, p, st, back):
        """(guard that an item exists, item); advances the iterator in memory"""
        if isinstance(p, Un):
            box = []

            def one(s, q):
                gg, v = self.step_iter(q, s, back)
                box.append((s.pc, gg, v))
                return UNIT
            self.forks(one, (p,), st)
            some = self.m.F
            for c, gg, _ in box:
                some = some | (c & gg)
            return some, mkun([(c & gg, v) for c, gg, v in box if v is not None], self.m)
        it = self.I.read_loc(('m', p.obj, p.path, None), st)
        if isinstance(it, Ptr):
            return self.step_iter(it, st, back)
        if isinstance(it, Un):
            it = self.I.simp(it, st.pc)
        if isinstance(it, Un):
            # several iterator states of the same shape
            pc0 = st.pc
            outs = []
            for g, x in self.I.alts(it, pc0):
                s2 = st.copy()
                s2.pc = pc0 & g
                self.setp(p, x, s2)
                gg, v = self.step_iter(p, s2, back)
                outs.append((g, s2, gg, v))
            j = self.I.join([s for _, s, _, _ in outs])
            st.mem, st.pc = j.mem, j.pc
            some = self.m.F
            for g, _, gg, _ in outs:
                some = some | (g & gg)
            return some, mkun([(g & gg, v) for g, _, gg, v in outs if v is not None], self.m)
        wr = lambda i, x: self.setp(Ptr(p.obj, p.path), self.iter_update(it, i, x), st)
        if isinstance(it, Agg):
            tn = self.prog.tn[it.tag] if isinstance(it.tag, int) else ''
            if tn.startswith('std::ops::Range<') or tn.startswith('core::ops::Range<'):
                lo, hi = it.f
                return self.range_step(p, it, lo, hi, st, back)
            if tn.startswith('std::ops::RangeInclusive<'):
                lo, hi = it.f[0], it.f[1]
                done = it.f[2]
                g = self.cd.ge(hi - lo, st.pc) & ~self.I.as_bool(done, st.pc)
                last = self.cd.eq(lo, hi, st.pc)
                if back:
                    n = Agg(it.tag, (lo, mkun([(g & ~last, hi - 1), (~(g & ~last), hi)], self.m), done | (g & last)))
                    v = hi
                else:
                    n = Agg(it.tag, (mkun([(g & ~last, lo + 1), (~(g & ~last), lo)], self.m), hi, done | (g & last)))
                    v = lo
                self.setp(p, n, st)
                return g, v
            if tn.startswith('std::ops::RangeFrom<'):
                self.setp(p, Agg(it.tag, (it.f[0] + 1,)), st)
                return self.m.T, it.f[0]
            if tn.startswith('std::iter::Rev<'):
                return self.step_iter(Ptr(p.obj, p.path + (('f', 0),)), st, not back)
            if tn:
                full = tn if tn.startswith(('std', 'core', 'alloc')) else 'redox_ecc::' + tn
                m = 'DoubleEndedIterator>::next_back' if back else 'Iterator>::next'
                c = self.prog.byname.get('<%s as std::iter::%s' % (full, m))
                if c:
                    r = self.I.call_fn(c[0], [p], st)
                    return self.split_option(r, st)
            raise Unsupported('iterator %s' % tn)
        if not isinstance(it, IterV):
            raise Unsupported('iterator %r' % (it,))
        k = it.kind
        sub = lambda i: Ptr(p.obj, p.path + (('f', i),))
        if k in ('slice', 'vec', 'repn', 'bitsof'):
            base, lo, hi = it.a
            if isinstance(lo, Un) or isinstance(hi, Un):
                vs = []
                pc0 = st.pc
                outs = []
                for gl, l in self.I.alts(lo, pc0):
                    for gh, h in self.I.alts(hi, pc0 & gl):
                        gg = gl & gh
                        if (gg & pc0).is_false():
                            continue
                        outs.append((gg, IterV(k, base, l, h)))
                self.setp(p, Un(outs), st)
                return self.step_iter(p, st, back)
            g = self.cd.ge(hi - lo - 1, st.pc)
            if (g & st.pc).is_false():
                return self.m.F, None
            pos = hi - 1 if back else lo
            one = self.I.bool2int(self.cd.simp(g, st.pc)) if not self.true(g, st.pc) else ONE
            if one.const() is None:
                new_lo = lo if back else mkun([(g, lo + 1), (~g, lo)], self.m)
                new_hi = mkun([(g, hi - 1), (~g, hi)], self.m) if back else hi
            else:
                new_lo = lo if back else lo + 1
                new_hi = hi - 1 if back else hi
            self.setp(p, IterV(k, base, new_lo, new_hi), st)
            if k == 'slice':
                v = Ptr(base.obj, base.path + (('i', pos),))
            elif k == 'vec':
                s2 = st.copy()
                s2.pc = st.pc & g
                v = self.seq_get(base, pos, s2)
            elif k == 'bitsof':
                v = self.cd.eq(T.kbit(base, pos), ONE, st.pc)
            else:
                v = base
            return g, v
        if k == 'rep':
            return self.m.T, it.a[0]
        if k == 'rev':
            return self.step_iter(sub(0), st, not back)
        if k == 'byref':
            return self.step_iter(it.a[0], st, back)
        if k == 'copied':
            g, v = self.step_iter(sub(0), st, back)
            return g, (self.val(v, st) if v is not None else None)
        if k == 'enum':
            if back:
                n = self.iter_len(it.a[0], st)
                g, v = self.step_iter(sub(0), st, True)
                return g, (Agg('tuple', (it.a[1] + n - 1, v)) if v is not None else None)
            g, v = self.step_iter(sub(0), st, False)
            if v is None:
                return g, None
            it2 = self.I.read_loc(('m', p.obj, p.path, None), st)
            self.setp(p, IterV('enum', it2.a[0], it.a[1] + 1), st)
            return g, Agg('tuple', (it.a[1], v))
        if k == 'fromfn':
            return self.split_option(self.call_fnmut(sub(0), it.a[0], [], st), st)
        if k == 'succ':
            g, v = self.split_option(it.a[0], st)
            if v is None or (g & st.pc).is_false():
                return g, None
            pc0 = st.pc
            s2 = st.copy()
            s2.pc = pc0 & g
            r = self.call_fnmut(sub(1), it.a[1], [Ptr(self.I.alloc(s2, v, 'tmp'))], s2)
            if r is not None:
                it2 = self.I.read_loc(('m', p.obj, p.path, None), s2)
                self.setp(p, IterV('succ', r, it2.a[1]), s2)
            self.merge_branch(st, pc0, g, s2)
            return g, v
        if k == 'map':
            g, v = self.step_iter(sub(0), st, back)
            if v is None or (g & st.pc).is_false():
                return g, None
            pc0 = st.pc
            s2 = st.copy()
            s2.pc = pc0 & g
            r = self.call_fnmut(sub(1), it.a[1], [v], s2)
            self.merge_branch(st, pc0, g, s2)
            return g, r
        if k == 'inspect':
            g, v = self.step_iter(sub(0), st, back)
            if v is not None and not (g & st.pc).is_false():
                s2 = st.copy()
                s2.pc = st.pc & g
                pc0 = st.pc
                self.call_fnmut(sub(1), it.a[1], [self.tmp(v, s2)], s2)
                self.merge_branch(st, pc0, g, s2)
            return g, v
        if k in ('filter', 'filter_map', 'skip_while'):
            if k == 'skip_while' and (back or it.a[1] is None):
                if back:
                    raise Unsupported('skip_while from the back')
                return self.step_iter(sub(0), st, False)
            def test(s, v):
                f = self.I.read_loc(('m', p.obj, p.path, None), s).a[1]
                r = self.call_fnmut(sub(1), f, [v if k == 'filter_map' else self.tmp(v, s)], s)
                if r is None:
                    return None
                if k == 'filter_map':
                    return self.split_option(r, s)
                b = self.I.as_bool(r, s.pc)
                return (~b if k == 'skip_while' else b), v
            g, v = self.scan(sub(0), st, back, test)
            if k == 'skip_while':
                it2 = self.I.read_loc(('m', p.obj, p.path, None), st)
                self.setp(p, IterV(k, it2.a[0], None), st)
            return g, v
        if k in ('take_while', 'map_while'):
            if back:
                raise Unsupported('%s from the back' % k)
            if it.a[1] is None:
                return self.m.F, None
            g, v = self.step_iter(sub(0), st, False)
            if v is None or (g & st.pc).is_false():
                return g, None
            pc0 = st.pc
            s2 = st.copy()
            s2.pc = pc0 & g
            r = self.call_fnmut(sub(1), it.a[1], [v if k == 'map_while' else self.tmp(v, s2)], s2)
            if r is None:
                return self.m.F, None
            if k == 'map_while':
                b, v = self.split_option(r, s2)
            else:
                b = self.I.as_bool(r, s2.pc)
            self.merge_branch(st, pc0, g, s2)
            it2 = self.I.read_loc(('m', p.obj, p.path, None), st)
            if self.true(b | ~g, st.pc):
                return g & b, v
            if (b & g & st.pc).is_false():
                self.setp(p, IterV(k, it2.a[0], None), st)
                return self.m.F, None
            raise Unsupported('%s with an undetermined end' % k)
        if k == 'flat_map':
            if back:
                raise Unsupported('flat_map from the back')
            for _ in range(4096):
                it = self.I.read_loc(('m', p.obj, p.path, None), st)
                if it.a[2] is not None:
                    g, v = self.step_iter(sub(2), st, False)
                    if self.true(g, st.pc):
                        return g, v
                    if not (g & st.pc).is_false():
                        raise Unsupported('flat_map of an unknown length')
                    it = self.I.read_loc(('m', p.obj, p.path, None), st)
                g, v = self.step_iter(sub(0), st, False)
                if v is None or (g & st.pc).is_false():
                    return self.m.F, None
                if not self.true(g, st.pc):
                    raise Unsupported('flat_map over an unknown length')
                r = v if it.a[1] is None else self.call_fnmut(sub(1), it.a[1], [v], st)
                if r is None:
                    return self.m.F, None
                it = self.I.read_loc(('m', p.obj, p.path, None), st)
                self.setp(p, IterV('flat_map', it.a[0], it.a[1], self.as_iter(r, st)), st)
            raise Unsupported('flat_map does not end')
        if k == 'chunks':
            ptr, lo, hi, n, exact = it.a
            n = self.I.simp(n, st.pc) if isinstance(n, Un) else n
            if isinstance(hi, Un) or isinstance(lo, Un) or isinstance(n, Un):
                raise Unsupported('chunks of a union of lengths')
            g = self.cd.ge(hi - lo - (n if exact else 1), st.pc)
            if (g & st.pc).is_false():
                return self.m.F, None
            if back and (hi - lo).const() is not None and n.const() is not None:
                m = int((hi - lo).const()) % int(n.const())
                if exact:
                    hi, m = hi - m, int(n.const())
                m = P(m or int(n.const()))
                self.setp(p, IterV('chunks', ptr, lo, hi - m, n, exact), st)
                return g, Ptr(ptr.obj, ptr.path, (hi - m, m))
            full = self.cd.ge(hi - lo - n, st.pc)
            if not self.true(full | ~g, st.pc) or back:
                if (full & st.pc).is_false() and not back:
                    self.setp(p, IterV('chunks', ptr, hi, hi, n, exact), st)
                    return g, Ptr(ptr.obj, ptr.path, (lo, hi - lo))
                raise Unsupported('chunks of an unknown count')
            if not self.true(g, st.pc):
                raise Unsupported('chunks of an unknown count')
            self.setp(p, IterV('chunks', ptr, lo + n, hi, n, exact), st)
            return g, Ptr(ptr.obj, ptr.path, (lo, n))
        if k == 'chars':
            if back:
                raise Unsupported('characters from the back')
            g, c, rest = self.next_char(it.a[0], st)
            if c is not None:
                self.setp(p, IterV('chars', rest), st)
            return g, c
        if k == 'zip':
            if back:
                n = self.iter_len(it.a[0], st) - self.iter_len(it.a[1], st)
                if not self.bd.eqz(n, st.pc):
                    raise Unsupported('zip from the back')
                g1, v1 = self.step_iter(sub(0), st, True)
                g2, v2 = self.step_iter(sub(1), st, True)
                if v1 is None or v2 is None:
                    return self.m.F, None
                return g1 & g2, Agg('tuple', (v1, v2))
            g1, v1 = self.step_iter(sub(0), st, False)
            if (g1 & st.pc).is_false():
                return self.m.F, None
            pc0 = st.pc
            s2 = st.copy()
            s2.pc = pc0 & g1
            g2, v2 = self.step_iter(sub(1), s2, False)
            self.merge_branch(st, pc0, g1, s2)
            if v1 is None or v2 is None:
                return self.m.F, None
            return g1 & g2, Agg('tuple', (v1, v2))
        if k == 'chain':
            a, b = (1, 0) if back else (0, 1)
            g1, v1 = self.step_iter(sub(a), st, back)
            if self.true(g1, st.pc):
                return g1, v1
            pc0 = st.pc
            s2 = st.copy()
            s2.pc = pc0 & ~g1
            g2, v2 = self.step_iter(sub(b), s2, back)
            self.merge_branch(st, pc0, ~g1, s2)
            alts = []
            if v1 is not None:
                alts.append((g1, v1))
            if v2 is not None:
                alts.append((~g1 & g2, v2))
            return g1 | g2, (mkun(alts, self.m) if alts else None)
        if k == 'take':
            n = it.a[1]
            g0 = self.cd.ge(n - 1, st.pc)
            if (g0 & st.pc).is_false():
                return self.m.F, None
            if not self.true(g0, st.pc) or back:
                raise Unsupported('take of an unknown count')
            g, v = self.step_iter(sub(0), st, False)
            it2 = self.I.read_loc(('m', p.obj, p.path, None), st)
            self.setp(p, IterV('take', it2.a[0], n - 1), st)
            return g, v
        if k == 'skip':
            n = it.a[1].const()
            if n is None:
                inner = it.a[0]
                if isinstance(inner, IterV) and inner.kind in ('slice', 'vec'):
                    b0, lo, hi = inner.a
                    if self.true(self.cd.ge(hi - lo - it.a[1], st.pc), st.pc):
                        self.setp(p, IterV('skip', IterV(inner.kind, b0, lo + it.a[1], hi), ZERO), st)
                        return self.step_iter(sub(0), st, back)
                raise Unsupported('skip of an unknown count')
            if back:
                raise Unsupported('skip from the back')
            for _ in range(int(n)):
                self.step_iter(sub(0), st, False)
            it2 = self.I.read_loc(('m', p.obj, p.path, None), st)
            self.setp(p, IterV('skip', it2.a[0], ZERO), st)
            return self.step_iter(sub(0), st, False)
        raise Unsupported('iterator %s' % k)

    def tmp(self, v, st):
        return Ptr(self.I.alloc(st, v, 'tmp'))

    def scan(self, p, st, back, test, limit=300):
        """the first item of the iterator at p accepted by test(state, item) -> (condition, value)"""
        found, outs = [], []
        s = st.copy()
        for _ in range(limit):
            g, v = self.step_iter(p, s, back)
            if v is None or (g & s.pc).is_false():
                outs.append(s)
                break
            if not self.true(g, s.pc):
                e = s.copy()
                e.pc = s.pc & ~g
                outs.append(e)
                s.pc = s.pc & g
            r = test(s, v)
            if r is None or s.pc.is_false():
                break
            hit, v2 = r
            h = s.pc & hit
            if not h.is_false():
                e = s.copy()
                e.pc = h
                outs.append(e)
                found.append((h, v2))
            s.pc = s.pc & ~hit
            if s.pc.is_false():
                break
        else:
            raise Unsupported('search of unknown length')
        outs = [e for e in outs if not e.pc.is_false()]
        if not outs:
            st.pc = self.m.F
            return self.m.F, None
        tot = self.m.F
        for e in outs:
            tot = tot | e.pc
        some = self.m.F
        for h, _ in found:
            some = some | h
        j = self.I.join(outs)
        st.mem, st.pc = j.mem, j.pc
        return self.cd.simp(some, tot), (mkun([(self.cd.simp(h, some), v) for h, v in found], self.m) if found else None)

    def collect_try(self, it, st, rt):
        """collect into Result<Vec<_>, _> or Option<Vec<_>>"""
        tn = self.prog.tn[rt]
        good = 0 if tn.startswith('std::result') else 1
        bad = []
        items = []
        live = self.m.T
        for g, v in self.exhaust(it, st):
            if not isinstance(v, EnumV):
                raise Unsupported('collect of %r' % (v,))
            ok, alts = self.m.F, []
            for gg, i, fs in v.alts:
                if i == good:
                    ok = ok | gg
                    alts.append((gg, fs[0]))
                else:
                    bad.append((live & gg, i, fs))
            live = live & ok
            if alts:
                items.append(mkun(alts, self.m))
        if not (live & st.pc).is_false():
            bad.append((live, good, (self.seq_of(items),)))
        return self.enum(rt, bad, st)

    def seq_of(self, items):
        return Seq(tuple(items))

    def merge_branch(self, st, pc0, g, s2):
        """st (under pc0 & ~g) and s2 (under pc0 & g) joined into st"""
        rest = pc0 & ~g
        if rest.is_false():
            st.mem, st.pc = s2.mem, s2.pc
            return
        s1 = st.copy()
        s1.pc = rest
        if s2.pc.is_false():
            st.mem, st.pc = s1.mem, s1.pc
            return
        j = self.I.join([s1, s2])
        st.mem, st.pc = j.mem, j.pc

    def range_step(self, p, it, lo, hi, st, back):
        if isinstance(lo, Un) or isinstance(hi, Un):
            outs = []
            for gl, l in self.I.alts(lo, st.pc):
                for gh, h in self.I.alts(hi, st.pc & gl):
                    if not (gl & gh & st.pc).is_false():
                        outs.append((gl & gh, Agg(it.tag, (l, h))))
            self.setp(p, Un(outs), st)
            return self.step_iter(p, st, back)
        g = self.cd.ge(hi - lo - 1, st.pc)
        if (g & st.pc).is_false():
            return self.m.F, None
        if self.true(g, st.pc):
            n = Agg(it.tag, (lo, hi - 1)) if back else Agg(it.tag, (lo + 1, hi))
        elif back:
            n = Agg(it.tag, (lo, mkun([(g, hi - 1), (~g, hi)], self.m)))
        else:
            n = Agg(it.tag, (mkun([(g, lo + 1), (~g, lo)], self.m), hi))
        self.setp(p, n, st)
        return g, (hi - 1 if back else lo)

    def split_option(self, r, st):
        if r is None:
            return self.m.F, None
        if not isinstance(r, EnumV):
            raise Unsupported('option expected')
        g = self.m.F
        v = None
        for gg, i, f in r.alts:
            if i == 1:
                g = g | gg
                v = f[0]
        return g, v

    def call_fnmut(self, ptr, f, args, st):
        """call the closure stored at ptr (environment updated in place)"""
        if isinstance(f, Agg) and isinstance(f.tag, tuple) and f.tag[0] == 'closure':
            ct = self.prog.types[f.tag[1]]
            cid = ct['calls'][0] if ct['calls'][0] is not None else ct['calls'][1]
            if cid is None:
                return self.I.call(f, args, st)
            return self.I.call_fn(self.prog.byid[cid], [ptr] + args, st)
        return self.I.call(f, args, st)

    def call_dyn(self, fn, a, st, rt=None, t=None):
        """Fn*::call* of a boxed, borrowed or type-erased function value"""
        def resolve(r):
            for _ in range(8):
                if isinstance(r, BoxV):
                    r = Ptr(r.obj)
                elif isinstance(r, ArcV):
                    r = Ptr(r.obj)
                elif isinstance(r, Ptr):
                    v = self.I.read_loc(('m', r.obj, r.path, None), st)
                    if isinstance(v, (BoxV, ArcV, Ptr)):
                        r = v
                    else:
                        return r, v
                else:
                    return Ptr(self.I.alloc(st, r, 'tmp')), r
            raise Unsupported('call through too many pointers')
        if not isinstance(a[1], Agg):
            raise Unsupported('call of %s' % fn.name)
        if isinstance(a[0], Un):
            raise Unsupported('call of several functions')
        ptr, f = resolve(a[0])
        return self.call_fnmut(ptr, f, list(a[1].f), st)

    def exhaust(self, it, st, limit=4096):
        """items of the iterator value: [(guard, value)] in order"""
        o = self.I.alloc(st, self.as_iter(it, st), 'tmp')
        out = []
        live = self.m.T
        for _ in range(limit):
            g, v = self.step_iter(Ptr(o), st, False)
            g = g & live
            if v is None or (g & st.pc).is_false():
                return out
            out.append((g, v))
            if not self.true(g, st.pc):
                raise Unsupported('iteration of unknown length')
            live = g
        raise Unsupported('iteration does not end')

    def hoist(self, v, st):
        """iterator over alternative sequences as alternatives of iterators"""
        if isinstance(v, Un):
            return v
        if isinstance(v, (Seq, Bytes)):
            return self.as_iter(v, st)
        if isinstance(v, IterV) and v.kind in ('rev', 'copied', 'vec') and v.a:
            x = v.a[0] if v.kind == 'vec' else self.hoist(v.a[0], st)
            if isinstance(x, Un):
                return Un([(g, self.hoist(IterV(v.kind, y, *v.a[1:]), st)) for g, y in self.I.alts(x, st.pc)])
            return IterV(v.kind, x, *v.a[1:])
        return v

    def collect(self, it, st):
        if isinstance(it, Un):
            return self.lift(lambda s, x: self.collect(x, s), (it,), st)
        v = self.as_iter(it, st)
        h = self.hoist(v, st)
        if isinstance(h, Un):
            return self.lift(lambda s, x: self.collect(x, s), (h,), st)
        v = h
        w = v.a[0] if isinstance(v, IterV) and v.kind == 'rev' else v
        if isinstance(w, IterV) and w.kind == 'bitsof' and w.a[1] == ZERO and w.a[2] == self.bd.bits(w.a[0]):
            return Opq('bitseq', w.a[0], w is not v)
        if isinstance(v, IterV) and v.kind == 'rev' and isinstance(v.a[0], IterV) and v.a[0].kind in ('vec', 'slice', 'copied'):
            inner = self.collect(v.a[0], st)
            each = [x for _, x in inner.alts] if isinstance(inner, Un) else [inner]
            if all(isinstance(x, (Bytes, Seq)) for x in each):
                return self.lift(lambda s, x: B.reverse(x) if isinstance(x, Bytes) else Seq(tuple(reversed(x.e))), (inner,), st)
        if isinstance(v, IterV) and v.kind == 'vec' and isinstance(v.a[0], (Bytes, Seq)):
            return self.slice_val(v.a[0], (v.a[1], v.a[2] - v.a[1]), st)
        if isinstance(v, IterV) and v.kind == 'copied' and isinstance(v.a[0], IterV):
            w = v.a[0]
            back = False
            if w.kind == 'rev' and isinstance(w.a[0], IterV):
                w, back = w.a[0], True
            if w.kind == 'slice':
                base = self.I.read_loc(('m', w.a[0].obj, w.a[0].path, None), st)
                r = self.slice_val(base, (w.a[1], w.a[2] - w.a[1]), st)
                if not back:
                    return r
                return self.lift(lambda s, x: B.reverse(x) if isinstance(x, Bytes) else Seq(tuple(reversed(x.e))), (r,), st)
        if isinstance(v, IterV) and v.kind == 'map' and isinstance(v.a[0], IterV) and v.a[0].kind in ('slice', 'copied', 'vec'):
            r = self.byte_map(v, st)
            if r is not None:
                return r
        if isinstance(v, IterV) and v.kind == 'map':
            r = self.bit_map(v, st)
            if r is not None:
                return r
        if isinstance(v, IterV) and v.kind == 'chain':
            a, b = self.collect(v.a[0], st), self.collect(v.a[1], st)
            return self.lift(lambda s, x, y: self.concat(x, y, s), (a, b), st)
        if isinstance(v, IterV) and v.kind == 'flat_map' and v.a[2] is None:
            fo = self.tmp(v.a[1], st)
            acc = None
            for _, x in self.exhaust(v.a[0], st):
                r = x if v.a[1] is None else self.call_fnmut(fo, self.I.read_loc(('m', fo.obj, fo.path, None), st), [x], st)
                if r is None:
                    return Seq(())
                c = self.collect(self.as_iter(r, st), st)
                acc = c if acc is None else self.lift(lambda s, x, y: self.concat(x, y, s), (acc, c), st)
            return Seq(()) if acc is None else acc
        if isinstance(v, IterV) and v.kind == 'repn' and isinstance(v.a[0], Poly):
            return B.normal([('rep', v.a[0], v.a[2] - v.a[1])])
        if isinstance(v, IterV) and v.kind == 'take' and isinstance(v.a[0], IterV) and v.a[0].kind == 'rep' \
                and isinstance(v.a[0].a[0], Poly):
            return B.normal([('rep', v.a[0].a[0], v.a[1])])
        return Seq([x for _, x in self.exhaust(v, st)])

    def byte_map(self, v, st):
        """a map over an unknown number of bytes that leaves each as it is"""
        w = v.a[0]
        n = w.a[2] - w.a[1] if w.kind != 'copied' else None
        if n is None and isinstance(w.a[0], IterV) and w.a[0].kind == 'slice':
            n = w.a[0].a[2] - w.a[0].a[1]
        if n is None or isinstance(n, Un) or n.const() is not None:
            return None
        b = P(T.C.gen('anybyte', (repr(v),), 0, 255))
        s = st.copy()
        k = len(self.I.panics)
        fo = self.tmp(v.a[1], s)
        r = self.call_fnmut(fo, v.a[1], [self.tmp(b, s) if w.kind == 'slice' else b], s)
        if len(self.I.panics) > k or r is None or self.I.read_loc(('m', fo.obj, (), None), s) != v.a[1]:
            del self.I.panics[k:]
            return None
        r = self.val(r, s) if w.kind == 'slice' and isinstance(r, Ptr) else r
        if r != b:
            return None
        return self.collect(IterV('copied', w) if w.kind == 'slice' else w, st)

    def bit_map(self, v, st):
        """a map over the positions 0..bits(k), up or down, to the bit at each"""
        w, down = v.a[0], False
        if isinstance(w, IterV) and w.kind == 'rev':
            w, down = w.a[0], True
        if not (isinstance(w, Agg) and isinstance(w.tag, int) and 'ops::Range<' in self.prog.tn[w.tag]) \
                or not all(isinstance(x, Poly) for x in w.f) or w.f[0] != ZERO:
            return None
        n = w.f[1]
        g = n.single_gen()
        if g is None or g.kind != 'bits' or n != P(g):
            return None
        k = g.args[0]
        j = P(T.C.gen('anypos', (repr(v),), 0, None, ub=(n - 1,)))
        s = st.copy()
        s.pc = s.pc & self.cd.ge(n - 1 - j, s.pc)
        before = len(self.I.panics)
        fo = self.tmp(v.a[1], s)
        pc = s.pc
        r = self.call_fnmut(fo, v.a[1], [j], s)
        if len(self.I.panics) > before or r is None or s.pc != pc or self.I.read_loc(('m', fo.obj, (), None), s) != v.a[1]:
            del self.I.panics[before:]
            return None
        for e, up in ((j, True), (n - 1 - j, False)):
            b = T.kbit(k, e)
            if r == b or isinstance(r, Bdd) and self.true(r.iff(self.cd.eq(b, ONE, s.pc)), s.pc):
                return Opq('bitseq', k, up == down)
        return None

    def vec_from_iter(self, fn, args, st, rt, term):
        return self.collect(args[0], st)

    def iter_consume(self, m, fn, args, st, rt):
        it = args[0]
        if m in ('all', 'any', 'position', 'find', 'find_map', 'rfind'):
            p = it if isinstance(it, Ptr) else self.tmp(it, st)
            f = args[1]
            fo = self.tmp(f, st)
            count = [0]

            def test(s, v):
                r = self.call_fnmut(fo, self.I.read_loc(('m', fo.obj, fo.path, None), s),
                                    [self.tmp(v, s) if m in ('find', 'rfind') else v], s)
                if r is None:
                    return None
                if m == 'find_map':
                    return self.split_option(r, s)
                b = self.I.as_bool(r, s.pc)
                count[0] += 1
                return (~b if m == 'all' else b), (P(count[0] - 1) if m == 'position' else v)
            g, v = self.scan(p, st, m == 'rfind', test)
            if st.pc.is_false():
                return None
            if m in ('all', 'any'):
                return ~g if m == 'all' else g
            return self.option(rt, g, v, st)
        if m == 'nth':
            p = it if isinstance(it, Ptr) else self.tmp(it, st)
            n = args[1].const() if isinstance(args[1], Poly) else None
            if n is None:
                raise Unsupported('nth of an unknown position')
            for _ in range(int(n)):
                g, v = self.step_iter(p, st, False)
                if v is None or (g & st.pc).is_false():
                    return self.enum(rt, [(self.m.T, 0, ())], st)
                if not self.true(g, st.pc):
                    raise Unsupported('nth of an unknown length')
            return self.lift_iter(p, st, rt, False)
        if m == 'last':
            xs = self.exhaust(it, st)
            return self.option(rt, self.m.T if xs else self.m.F, xs[-1][1] if xs else UNIT, st)
        if m == 'reduce':
            o = self.tmp(self.as_iter(it, st), st)
            g, v = self.step_iter(o, st, False)
            if v is None or (g & st.pc).is_false():
                return self.enum(rt, [(self.m.T, 0, ())], st)
            if not self.true(g, st.pc):
                raise Unsupported('reduce of an unknown length')
            r = self.iter_consume('fold', fn, [self.I.read_loc(('m', o.obj, o.path, None), st), v, args[1]], st, rt)
            return None if r is None else self.option(rt, self.m.T, r, st)
        if m in ('sum', 'product') and self.prog.tn[rt] in ('num_bigint::BigInt', 'num_bigint::BigUint', 'usize', 'u8', 'u32',
                                                            'i32', 'u64', 'i64'):
            acc = ZERO if m == 'sum' else ONE
            for _, v in self.exhaust(it, st):
                v = self.val(v, st)
                if not isinstance(v, Poly):
                    raise Unsupported(m)
                acc = acc + v if m == 'sum' else acc * v
            return acc if self.prog.tn[rt].startswith('num_') else self.I.wrap(acc, rt, st.pc)
        if m in ('fold', 'for_each', 'rfold'):
            if m == 'rfold':
                it = IterV('rev', it)
            o = self.I.alloc(st, self.as_iter(it, st), 'tmp')
            f = args[-1]
            fo = self.I.alloc(st, f, 'tmp')
            acc = args[1] if m != 'for_each' else UNIT
            s0 = st.copy()
            for _ in range(4096):
                g, v = self.step_iter(Ptr(o), st, False)
                if v is None or (g & st.pc).is_false():
                    return acc
                if not self.true(g, st.pc):
                    r = self.fold_loop(m, o, fo, args[1] if m != 'for_each' else UNIT, s0)
                    if r is None:
                        raise Unsupported('fold of unknown length')
                    acc, s1 = r
                    st.mem, st.pc = s1.mem, s1.pc
                    return acc
                r = self.call_fnmut(Ptr(fo), self.I.read_loc(('m', fo, (), None), st),
                                    [acc, v] if m != 'for_each' else [v], st)
                if r is None:
                    return None
                if m != 'for_each':
                    acc = r
            raise Unsupported('fold does not end')
        if m == 'count':
            return P(len(self.exhaust(it, st)))
        raise Unsupported(m)

    def fold_loop(self, m, o, fo, init, entry):
        """fold over an unknown number of items, through the loop summary: (result, state)"""
        if self.summarise is None:
            return None
        ao = self.I.alloc(entry, init, 'acc')

        def run(st):
            s = self.summary_step()
            p0 = len(self.I.panics)
            pc0 = st.pc
            g, v = self.step_iter(Ptr(o), st, False)
            s.exits, s.rets, s.cont = [], [], None
            out = st.copy()
            out.pc = pc0 & ~g
            if not out.pc.is_false():
                s.exits.append((0, out))
            go = pc0 & g
            if v is not None and not go.is_false():
                st.pc = go
                acc = self.I.read_loc(('m', ao, (), None), st)
                r = self.call_fnmut(Ptr(fo), self.I.read_loc(('m', fo, (), None), st),
                                    [acc, v] if m != 'for_each' else [v], st)
                if r is not None and not st.pc.is_false():
                    if m != 'for_each':
                        st.mem[ao] = r
                    s.cont = st
            s.panics = self.I.panics[p0:]
            del self.I.panics[p0:]
            return s
        r = self.summarise(run, entry)
        if r is None:
            return None
        exits, _, panics = r
        self.I.panics.extend(panics)
        if not exits:
            return None
        j = self.I.join([s for _, s in exits])
        return self.I.read_loc(('m', ao, (), None), j), j

    # =================================================================== strings
    def str_len(self, v):
        n = ZERO
        for p in pieces(v):
            if isinstance(p, str):
                n = n + len(p.encode())
            elif p[0] == 'sub':
                n = n + p[3] - p[2]
            elif p[0] == 'num' and len(p) > 5 and p[5] == p[4]:
                n = n + p[5]
            else:
                n = n + P(T.C.gen('slen', (p,), self.minlen(p), 1 << 40))
        return n

    def minlen(self, p):
        if p[0] == 'num':
            return p[4] if len(p) > 4 else 1
        if p[0] == 'dec':
            return 1
        return 0

    def digits_of(self, p):
        """characters that may occur in a piece, or None"""
        if p[0] == 'num':
            return '0123456789abcdefABCDEF'[:p[2]] if p[2] <= 10 else '0123456789abcdefABCDEF'
        if p[0] == 'dec':
            return '-0123456789'
        return None

    def get_str(self, a, st):
        v = self.val(a, st)
        if isinstance(v, Opq) and v.name == 'strbytes':
            v = v.a[0]
        return v

    def str_method(self, fn, args, st, rt, term):
        m = method_of(fn.name)
        s = self.get_str(args[0], st)
        if isinstance(s, Un):
            return self.lift(lambda x, y: self._str_method(m, y, args, x, rt), (s,), st)
        return self._str_method(m, s, args, st, rt)

    def _str_method(self, m, s, args, st, rt):
        if m == 'len':
            return self.str_len(s)
        if m == 'is_empty':
            return self.cd.eq(self.str_len(s), ZERO, st.pc)
        if m == 'as_bytes':
            return Ptr(self.I.alloc(st, Opq('strbytes', s), 'tmp'))
        if m == 'starts_with':
            return self.starts(s, self.pattern(args[1], st), st)
        if m == 'strip_prefix':
            pat = self.pattern(args[1], st)
            g = self.starts(s, pat, st)
            return self.option(rt, g, self.cut(s, len(pat), st) if not (g & st.pc).is_false() else s, st)
        if m in ('trim', 'trim_start', 'trim_end', 'trim_start_matches', 'trim_left_matches', 'trim_end_matches', 'trim_right_matches'):
            pat = self.pattern(args[1], st) if 'matches' in m else None
            if pat is not None and len(pat) != 1:
                raise Unsupported('str::%s of several characters' % m)
            ps = list(pieces(s))
            for end in ((0, -1) if m == 'trim' else (0,) if 'start' in m or 'left' in m else (-1,)):
                while ps:
                    x = ps[end]
                    if isinstance(x, str):
                        y = x.strip() if pat is None else x
                        y = (x.lstrip(pat) if end == 0 else x.rstrip(pat)) if pat else (x.lstrip() if end == 0 else x.rstrip())
                        if y:
                            ps[end] = y
                            break
                        ps.pop(end)
                        continue
                    al = self.digits_of(x)
                    if al is None or pat is not None and pat in al or not self.minlen(x):
                        raise Unsupported('trim of an unknown text')
                    break
            return mkstr(ps)
        if m in ('chars', 'bytes'):
            return IterV('chars', s)
        if m in ('to_lowercase', 'to_ascii_lowercase', 'to_uppercase', 'to_ascii_uppercase'):
            f = str.lower if 'lower' in m else str.upper
            if any(not isinstance(x, str) and x[0] not in ('num', 'dec') for x in pieces(s)):
                raise Unsupported('str::' + m)
            return mkstr([f(x) if isinstance(x, str) else x for x in pieces(s)])
        if m == 'replace':
            parts = self.split(s, self.pattern(args[1], st), 1 << 30)
            new = self.pattern(args[2], st)
            out = []
            for i, x in enumerate(parts):
                out += ([new] if i else []) + list(pieces(x))
            return mkstr(out)
        if m in ('splitn', 'split'):
            if m == 'splitn':
                n, pat = int(args[1].const()), self.pattern(args[2], st)
            else:
                n, pat = 1 << 30, self.pattern(args[1], st)
            parts = self.split(s, pat, n)
            return IterV('vec', Seq(parts), ZERO, P(len(parts)))
        if m in ('find', 'contains'):
            parts = self.split(s, self.pattern(args[1], st), 2)
            if m == 'contains':
                return self.m.const(len(parts) == 2)
            if len(parts) == 2:
                return self.option(rt, self.m.T, self.str_len(parts[0]), st)
            return self.option(rt, self.m.F, UNIT, st)
        if m == 'split_once':
            parts = self.split(s, self.pattern(args[1], st), 2)
            if len(parts) == 2:
                return self.option(rt, self.m.T, Agg('tuple', tuple(parts)), st)
            return self.option(rt, self.m.F, UNIT, st)
        if m == 'parse':
            ok, v = self.numeral(s, 10, st)
            if v is None:
                return self.enum(rt, [(self.m.T, 1, (Opq('err'),))], st)
            return self.enum(rt, [(ok, 0, (v,)), (~ok, 1, (Opq('err'),))], st)
        if m == 'get':
            n = self.str_len(s)
            lo, hi = self.range_of(self.val(args[1], st), n)
            ok = self.cd.ge(hi - lo, st.pc) & self.cd.ge(n - hi, st.pc)
            v = s
            if not (ok & st.pc).is_false():
                s2 = st.copy()
                s2.pc = st.pc & ok
                v = self.substr(s, lo, hi, s2)
            return self.option(rt, ok, v, st)
        if m in ('split_at', 'split_at_checked'):
            n, k = self.str_len(s), self.val(args[1], st)
            ok = self.cd.ge(n - k, st.pc) & self.cd.ge(k, st.pc)
            if m == 'split_at':
                self.I.panic(st, ~ok, 'string slice out of bounds')
                st.pc = st.pc & ok
            v = Agg('tuple', (s, s))
            if not (ok & st.pc).is_false():
                s2 = st.copy()
                s2.pc = st.pc & ok
                v = Agg('tuple', (self.substr(s, ZERO, k, s2), self.substr(s, k, n, s2)))
            return v if m == 'split_at' else self.option(rt, ok, v, st)
        raise Unsupported('str::%s' % m)

    def chars_rest(self, fn, args, st, rt, term):
        it = self.val(args[0], st)
        return self.lift(lambda s, x: x.a[0], (it,), st)

    def next_char(self, s, st):
        """(not empty, first character, rest)"""
        ps = [x for x in pieces(s) if x != '']
        if not ps:
            return self.m.F, None, s
        if isinstance(ps[0], str):
            return self.m.T, P(ord(ps[0][0])), mkstr([ps[0][1:]] + ps[1:])
        return self.cd.ge(self.str_len(s) - 1, st.pc), self.char_at(s, ZERO, st), self.cut(s, 1, st)

    def char_at(self, s, ix, st):
        ps = [x for x in pieces(s) if x != '']
        i, c = self.boundary(ps, ix, st)
        if i >= len(ps):
            raise Unsupported('character past the end')
        x = ps[i]
        if isinstance(x, str):
            if c < len(x):
                return P(ord(x[c]))
            raise Unsupported('character at %r' % (ix,))
        if x[0] != 'num' or c >= self.minlen(x):
            raise Unsupported('character at %r of %r' % (ix, s))
        al = sorted(map(ord, self.digits_of(x)))
        return P(T.C.gen('chr', (x, c), al[0], al[-1]))

    def pattern(self, a, st):
        v = self.val(a, st)
        if isinstance(v, Str):
            return v.s
        if isinstance(v, Poly) and v.const() is not None:
            return chr(int(v.const()))
        raise Unsupported('pattern %r' % (v,))

    def starts(self, s, pat, st):
        ps = list(pieces(s))
        for i, ch in enumerate(pat):
            while ps and isinstance(ps[0], str) and not ps[0]:
                ps.pop(0)
            if not ps:
                return self.m.F
            if isinstance(ps[0], str):
                if ps[0][0] != ch:
                    return self.m.F
                ps[0] = ps[0][1:]
                continue
            al = self.digits_of(ps[0])
            if al is not None:
                # the numeral covers l characters of the pattern, the rest follows it
                rest = pat[i:]
                top = next((j for j, c in enumerate(rest) if c not in al), None)
                if top is not None and all(
                        self.starts(mkstr(ps[1:]), rest[l:], st) is self.m.F
                        for l in range(self.minlen(ps[0]), top + 1)):
                    return self.m.F
            if ps[0][0] == 'dec' and ch == '-':
                return ~self.cd.ge(ps[0][1], st.pc)
            return self.m.var(('starts', repr(s), pat))
        return self.m.T

    def cut(self, s, k, st):
        """drop k leading bytes, all literal"""
        ps = list(pieces(s))
        while k > 0:
            if not ps:
                raise Unsupported('cut past the end')
            if isinstance(ps[0], str):
                t = ps[0]
                if len(t) <= k:
                    k -= len(t)
                    ps.pop(0)
                else:
                    ps[0] = t[k:]
                    k = 0
                continue
            if ps[0][0] == 'dec' and k == 1:
                # the text of a negative number without its sign
                if (st.pc & self.cd.ge(ps[0][1], st.pc)).is_false():
                    ps[0] = ('dec', -ps[0][1])
                    k = 0
                    continue
            p = ps.pop(0)
            n = P(T.C.gen('slen', (p,), self.minlen(p), 1 << 40))
            ps.insert(0, ('sub', p, P(k), n))
            k = 0
        return mkstr(ps)

    def boundary(self, ps, at, st):
        """(i, c): the offset `at` lies c bytes after the start of piece i"""
        off, best = ZERO, None
        for i, p in enumerate(list(ps) + [None]):
            d = at - off
            if self.bd.eqz(d, st.pc):
                return i, 0
            c = d.const()
            if c is not None and c > 0:
                best = i, int(c)
            if p is not None:
                off = off + self.str_len(mkstr([p]))
        if best is None:
            raise Unsupported('substring at %r' % (at,))
        return best

    def substr(self, s, lo, hi, st):
        ps = list(pieces(s))
        i, c = self.boundary(ps, lo, st)
        r = self.cut(mkstr(ps[i:]), c, st)
        if self.bd.eqz(self.str_len(s) - hi, st.pc):
            return r
        ps = list(pieces(r))
        i, k = self.boundary(ps, hi - lo, st)
        out, ps = ps[:i], ps[i:]
        for p in ps:
            if k == 0:
                break
            if isinstance(p, str):
                out.append(p[:k])
                k -= len(p[:k])
            else:
                out.append(('sub', p, ZERO, P(k)))
                k = 0
        return mkstr(out)

    def split(self, s, pat, n):
        if len(pat) != 1:
            raise Unsupported('split pattern')
        parts, cur = [], []
        for p in pieces(s):
            if isinstance(p, str):
                t = p
                while t and len(parts) < n - 1 and pat in t:
                    a, t = t.split(pat, 1)
                    cur.append(a)
                    parts.append(mkstr(cur))
                    cur = []
                cur.append(t)
            else:
                al = self.digits_of(p)
                if len(parts) < n - 1 and (al is None or pat in al):
                    raise Unsupported('split of an unknown text')
                cur.append(p)
        parts.append(mkstr(cur))
        return parts

    def str_index(self, fn, args, st, rt, term):
        s = self.get_str(args[0], st)
        return self.lift(lambda x, y: self._str_index(y, self.val(args[1], x), x), (s,), st)

    def str_slice_index(self, fn, args, st, rt, term):
        s = self.get_str(args[1], st)
        return self.lift(lambda x, y: self._str_index(y, self.val(args[0], x), x), (s,), st)

    def _str_index(self, s, r, st):
        n = self.str_len(s)
        lo, hi = self.range_of(r, n)
        ok = self.cd.ge(hi - lo, st.pc) & self.cd.ge(n - hi, st.pc)
        self.I.panic(st, ~ok, 'string slice out of bounds')
        if st.pc.is_false():
            return None
        return self.substr(s, lo, hi, st)

    def str_eq(self, fn, args, st, rt, term):
        neg = fn.name.endswith('::ne')
        a, b = self.get_str(args[0], st), self.get_str(args[1], st)

        def f(s, x, y):
            r = self._str_eq(x, y, s)
            return ~r if neg else r
        return self.lift(f, (a, b), st)

    def _str_eq(self, a, b, st):
        if a == b:
            return self.m.T
        if isinstance(a, Str) and isinstance(b, Str):
            return self.m.F
        if isinstance(a, Str):
            a, b = b, a
        if isinstance(b, Str):
            ps = pieces(a)
            lit = b.s
            # a character of the literal that the unknown part cannot contain
            fixed = ''.join(p for p in ps if isinstance(p, str))
            al = set(fixed)
            unknown = False
            for p in ps:
                if not isinstance(p, str):
                    q = p[1] if p[0] == 'sub' else p
                    d = self.digits_of(q)
                    if d is None:
                        unknown = True
                    else:
                        al |= set(d)
            if not unknown and any(c not in al for c in lit):
                return self.m.F
        return self.m.var(('streq', repr(a), repr(b)))

    def string_deref(self, fn, args, st, rt, term):
        return self.get_str(args[0], st)

    def to_string(self, fn, args, st, rt, term):
        t = re.match(r'^<(.*) as std::string::', fn.name).group(1)
        return mkstr(self.render(t, args[0], st))

    # =================================================================== formatting
    def render(self, t, ptr, st):
        """pieces of the Display rendering of the value at ptr"""
        while t.startswith('&'):
            t = re.sub(r"^&('\w+ )?(mut )?", '', t)
            if isinstance(ptr, Ptr):
                x = self.I.read_loc(('m', ptr.obj, ptr.path, None), st)
                if isinstance(x, (Ptr, Str, StrV)):
                    ptr = x
        if t in ('str', 'std::string::String'):
            return list(pieces(self.get_str(ptr, st)))
        if t in INTS or t.startswith('num_bigint::Big') or 'num_bigint::Big' in t and t.startswith('redox_ecc'):
            v = self.val(ptr, st)
            if isinstance(v, Un):
                return [('alt', v)]
            if v.const() is not None:
                return [str(int(v.const()))]
            return [('dec', v)]
        g = self.prog.byname.get('<%s as std::fmt::Display>::fmt' % t)
        if not g:
            raise Unsupported('display of %s' % t)
        o = self.I.alloc(st, Opq('fmt'), 'tmp')
        r = self.I.call_fn(g[0], [ptr, Ptr(o)], st)
        if r is None:
            return []
        v = st.mem[o]
        if isinstance(v, Un):
            return [('alt', v)]
        return list(v.a)

    def fmt_arg(self, fn, args, st, rt, term):
        m = re.search(r'new_(display|debug)::<(.*)>$', fn.name)
        return Opq('arg', m.group(1), m.group(2), args[0])

    def fmt_args(self, fn, args, st, rt, term):
        return Opq('args', self.val(args[0], st), self.val(args[1], st))

    def fmt_from_str(self, fn, args, st, rt, term):
        return Opq('args', self.get_str(args[0], st), Seq(()))

    def expand(self, a, st):
        """pieces of an Arguments value"""
        if not (isinstance(a, Opq) and a.name == 'args'):
            raise Unsupported('format arguments %r' % (a,))
        tpl, av = a.a
        if isinstance(tpl, (Str, StrV)):
            return list(pieces(tpl))
        bs = [int(x.const()) for x in tpl.e]
        out, i, k = [], 0, 0
        raw = bytearray()
        while i < len(bs):
            b = bs[i]
            i += 1
            if b == 0:
                break
            if b < 0x80:
                raw += bytes(bs[i:i + b])
                i += b
                continue
            if b == 0x80:
                n = bs[i] | bs[i + 1] << 8
                i += 2
                raw += bytes(bs[i:i + n])
                i += n
                continue
            if b == 0xC0:
                if raw:
                    out.append(raw.decode())
                    raw = bytearray()
                x = av.e[k]
                k += 1
                if x.a[0] != 'display':
                    raise Unsupported('debug formatting')
                out.extend(self.render(x.a[1], x.a[2], st))
                continue
            raise Unsupported('format directive %#x' % b)
        if raw:
            out.append(raw.decode())
        return out

    def fmt_write(self, fn, args, st, rt, term):
        p = args[0]
        while True:
            x = self.I.read_loc(('m', p.obj, p.path, None), st)
            if isinstance(x, Ptr):
                p = x
                continue
            break
        m = method_of(fn.name)
        if m == 'write_fmt':
            ps = self.expand(self.val(args[1], st), st)
        elif m == 'write_char':
            ps = [self.pattern(args[1], st)]
        else:
            ps = list(pieces(self.get_str(args[1], st)))
        self.emit(p, ps, st)
        return self.enum(rt, [(self.m.T, 0, (UNIT,))], st)

    def string_push(self, fn, args, st, rt, term):
        m = method_of(fn.name)
        v = Str(self.pattern(args[1], st)) if m == 'push' else self.get_str(args[1], st)

        def app(s, a, b):
            return mkstr(list(pieces(a)) + list(pieces(b)))
        if m == 'add':
            return self.lift(app, (self.get_str(args[0], st), v), st)
        return self.update(args[0], app, st, v)

    def string_write(self, fn, args, st, rt, term):
        m = method_of(fn.name)
        if m == 'write_fmt':
            v = mkstr(self.expand(self.val(args[1], st), st))
        elif m == 'write_char':
            v = Str(self.pattern(args[1], st))
        else:
            v = self.get_str(args[1], st)
        self.update(args[0], lambda s, a, b: mkstr(list(pieces(a)) + list(pieces(b))), st, v)
        return self.enum(rt, [(self.m.T, 0, (UNIT,))], st)

    def str_join(self, fn, args, st, rt, term):
        v = self.whole(args[0], st)
        if not isinstance(v, Seq):
            raise Unsupported('join of %r' % (v,))
        sep = pieces(self.get_str(args[1], st)) if len(args) > 1 else ()
        out = Str('')
        for i, x in enumerate(v.e):
            y = self.get_str(x, st)
            out = self.lift(lambda s, a, b: mkstr(list(pieces(a)) + list(sep if i else ()) + list(pieces(b))), (out, y), st)
        return out

    def emit(self, p, ps, st):
        def f(s, old):
            if not (isinstance(old, Opq) and old.name == 'fmt'):
                raise Unsupported('formatter %r' % (old,))
            q = StrV(tuple(old.a) + tuple(ps))
            return Opq('fmt', *q.p)
        self.update(p, f, st)

    def fmt_display(self, fn, args, st, rt, term):
        t = re.match(r'^<(.*) as ', fn.name)
        t = t.group(1) if t else re.search(r'for (\w+)>::fmt', fn.name).group(1)
        ps = self.render(t, args[0], st)
        p = args[1]
        while True:
            x = self.I.read_loc(('m', p.obj, p.path, None), st)
            if isinstance(x, Ptr):
                p = x
                continue
            break
        self.emit(p, ps, st)
        return self.enum(rt if rt is not None else -1, [(self.m.T, 0, (UNIT,))], st)

    def fmt_format(self, fn, args, st, rt, term):
        return mkstr(self.expand(self.val(args[0], st), st))

    def io_error(self, fn, args, st, rt, term):
        return Opq('ioerr')

    # =================================================================== memory
    def mem_swap(self, fn, args, st, rt, term):
        a, b = args
        x = self.I.read_loc(('m', a.obj, a.path, None), st)
        y = self.I.read_loc(('m', b.obj, b.path, None), st)
        self.setp(a, y, st)
        self.setp(b, x, st)
        return UNIT

    def mem_replace(self, fn, args, st, rt, term):
        a, v = args
        x = self.I.read_loc(('m', a.obj, a.path, None), st)
        self.setp(a, v, st)
        return x

    def i_cold_path(self, fn, args, st, rt, term):
        return UNIT

    def i_assume(self, fn, args, st, rt, term):
        return UNIT

    def i_ctpop(self, fn, args, st, rt, term):
        c = args[0].const()
        if c is None:
            raise Unsupported('ctpop')
        return P(bin(int(c)).count('1'))

    # =================================================================== machine integers
    def int_method(self, fn, args, st, rt, term):
        m = method_of(fn.name)
        t = re.search(r'<impl (\w+)>', fn.name).group(1)
        ty = self.prog.type_id(t)
        vals = [self.val(a, st) for a in args]

        def f(s, *v):
            return self._int_method(m, ty, rt, s, *v)
        return self.lift(f, vals, st)

    def _int_method(self, m, ty, rt, st, a, b=None):
        lo, hi = self.I.int_range(ty)
        if m in ('wrapping_sub', 'wrapping_add', 'wrapping_mul', 'overflowing_sub', 'overflowing_add', 'overflowing_mul'):
            op = m.split('_')[1]
            v = a - b if op == 'sub' else a + b if op == 'add' else a * b
            w = self.I.wrap(v, ty, st.pc)
            if m.startswith('wrapping'):
                return w
            ov = ~(self.cd.ge(v - lo, st.pc) & self.cd.ge(hi - v, st.pc))
            return Agg('tuple', (w, ov))
        if m == 'wrapping_neg':
            return self.I.wrap(-a, ty, st.pc)
        if m.startswith('checked_'):
            op = m.split('_', 1)[1]
            if op in ('add', 'sub', 'mul'):
                v = a - b if op == 'sub' else a + b if op == 'add' else a * b
                ok = self.cd.ge(v - lo, st.pc) & self.cd.ge(hi - v, st.pc)
                return self.option(rt, ok, v, st)
            if op in ('div', 'rem', 'div_euclid', 'rem_euclid') and lo == 0:
                z = self.cd.eq(b, ZERO, st.pc)
                v = self.I.int_div('Div' if op.startswith('div') else 'Rem', a, b, st.pc) if (z & st.pc).is_false() else None
                if v is None:
                    raise Unsupported(m)
                return self.lift(lambda s, x: self.option(rt, ~z, x, s), (v,), st)
            if op in ('shl', 'shr'):
                w = hi.bit_length() + (1 if lo else 0)
                ok = self.cd.ge(P(w) - 1 - b, st.pc)
                if not self.true(ok, st.pc):
                    raise Unsupported(m)
                v = self.I.int_op('Shl' if op == 'shl' else 'Shr', a, b, ty, st)
                return self.lift(lambda s, x: self.option(rt, ok, x, s), (v,), st)
            raise Unsupported(m)
        if m == 'signum':
            g, z = self.cd.ge(a, st.pc), self.cd.eq(a, ZERO, st.pc)
            return mkun([(~g, P(-1)), (z, ZERO), (g & ~z, ONE)], self.m)
        if m in ('min', 'max'):
            g = self.cd.ge(a - b, st.pc)
            return mkun([(g, b), (~g, a)], self.m) if m == 'min' else mkun([(g, a), (~g, b)], self.m)
        if m == 'saturating_sub' and lo == 0:
            g = self.cd.ge(a - b, st.pc)
            return mkun([(g, a - b), (~g, ZERO)], self.m)
        if m == 'pow':
            if b.const() is not None:
                return self.I.wrap(a ** int(b.const()), ty, st.pc)
        if m == 'div_ceil':
            c = b.const()
            if c is not None:
                return T.floordiv(a + int(c) - 1, int(c))
        if m in ('rem_euclid', 'div_euclid'):
            c = b.const()
            if c is not None and c > 0:
                return T.mod(a, P(c)) if m == 'rem_euclid' else T.floordiv(a, int(c))
        if m in ('abs', 'unsigned_abs'):
            g = self.cd.ge(a, st.pc)
            return mkun([(g, a), (~g, -a)], self.m)
        if m == 'abs_diff':
            g = self.cd.ge(a - b, st.pc)
            return mkun([(g, a - b), (~g, b - a)], self.m)
        if a.const() is not None and m in ('leading_zeros', 'trailing_zeros', 'count_ones'):
            x = int(a.const())
            w = hi.bit_length()
            if m == 'count_ones':
                return P(bin(x).count('1'))
            if m == 'leading_zeros':
                return P(w - x.bit_length())
            return P(w if x == 0 else (x & -x).bit_length() - 1)
        raise Unsupported('integer %s' % m)

    def int_minmax(self, fn, args, st, rt, term):
        m = method_of(fn.name)
        a, b = self.val(args[0], st), self.val(args[1], st)
        if m == 'clamp':
            return self.lift(lambda s, x, y, z: self.n_clamp(s, rt, fn, x, y, z), (a, b, self.val(args[2], st)), st)

        def f(s, x, y):
            if m == 'cmp':
                return self.ordering(x - y, rt, s)
            g = self.cd.ge(x - y, s.pc)
            return mkun([(g, y), (~g, x)], self.m) if m == 'min' else mkun([(g, x), (~g, y)], self.m)
        return self.lift(f, (a, b), st)

    def int_cmp(self, fn, args, st, rt, term):
        m = method_of(fn.name)
        if m in ('min', 'max', 'clamp'):
            return self.int_minmax(fn, args, st, rt, term)
        a, b = self.val(args[0], st), self.val(args[1], st)

        def f(s, x, y):
            if m == 'cmp':
                return self.ordering(x - y, rt, s)
            if m == 'partial_cmp':
                return EnumV(rt, [(self.m.T, 1, (self.ordering(x - y, self.opt_arg(rt), s),))])
            return self.I.compare({'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[m], x, y, s.pc)
        return self.lift(f, (a, b), st)
