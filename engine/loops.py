"""Loop summaries by inductive templates.

A loop that walks the bits (or 32-bit words) of an integer k of unknown length is
replaced by an invariant.  With N positions and t steps done, the part of k that
has been read is described by

    most significant first    pre = k >> (w (N - t))         pre' = 2^w pre + chunk
    least significant first   low = k mod 2^(w t), pw = 2^(w t)
                              low' = low + pw chunk,  pw' = 2^w pw

Every memory slot that changes is matched with a template c0 + c1 pre (or
c0 + c1 low + c2 pw), fitted on one abstract iteration and then *verified* by an
abstract iteration from the template itself: the slots after it must equal the
template at the next position, for every position and every chunk, and an
iteration past the last position must leave the loop.  Slots hold integers or
formal multiples (`Opq('fm', m)`, see `Formal`).
"""
from . import terms as T
from .terms import Poly, P, ZERO, ONE
from .bdd import Bdd
from .values import *
from .values import Unsupported
from . import theory


def fm(m):
    return Opq('fm', P(m))


def collapse(I, v, pc):
    """one integer for a guarded union of integers"""
    if isinstance(v, Poly):
        return v
    if not isinstance(v, Un):
        return None
    alts = [(g, x) for g, x in v.alts if not (g & pc).is_false()]
    if not alts or not all(isinstance(x, Poly) for _, x in alts):
        return None
    r = alts[-1][1]
    for g, x in reversed(alts[:-1]):
        if x == r:
            continue
        i = I.bool2int(I.cd.simp(g, pc))
        r = r + i * (x - r)
    return linear01(r)


def linear01(r):
    """b^2 = b for generators that are 0 or 1"""
    if not isinstance(r, Poly):
        return r
    for g in list(r.gens()):
        gg = T.C.gens[g]
        if gg.lo == 0 and gg.hi == 1 and r.degree_in(g) > 1:
            a = r.subs({g: ZERO})
            b = r.subs({g: ONE})
            r = a + P(gg) * (b - a)
    return r


def mult_of(I, v, pc):
    """the multiplier of an Opq('fm') value or of a union of such"""
    if isinstance(v, Opq) and v.name == 'fm':
        return v.a[0]
    if isinstance(v, Un):
        alts = [(g, x) for g, x in v.alts if not (g & pc).is_false()]
        if alts and all(isinstance(x, Opq) and x.name == 'fm' for _, x in alts):
            return collapse(I, mkun([(g, x.a[0]) for g, x in alts], I.cd.mgr), pc)
    return None


def differ(a, b, path=()):
    """leaf positions where two values differ: (path, a, b)"""
    if a is b or a == b:
        return
    if isinstance(a, Agg) and isinstance(b, Agg) and a.tag == b.tag and len(a.f) == len(b.f):
        for i, (x, y) in enumerate(zip(a.f, b.f)):
            yield from differ(x, y, path + (i,))
    elif isinstance(a, Seq) and isinstance(b, Seq) and len(a.e) == len(b.e):
        for i, (x, y) in enumerate(zip(a.e, b.e)):
            yield from differ(x, y, path + (i,))
    elif isinstance(a, IterV) and isinstance(b, IterV) and a.kind == b.kind and len(a.a) == len(b.a):
        for i, (x, y) in enumerate(zip(a.a, b.a)):
            yield from differ(x, y, path + (i,))
    else:
        yield path, a, b


def put(v, path, x):
    if not path:
        return x
    i = path[0]
    f = lambda l: [put(y, path[1:], x) if j == i else y for j, y in enumerate(l)]
    if isinstance(v, Agg):
        return Agg(v.tag, f(v.f))
    if isinstance(v, Seq):
        return Seq(f(v.e))
    return IterV(v.kind, *f(v.a))


def deep(I, v, pc):
    """drop the alternatives excluded by pc, at every level"""
    v = I.simp(v, pc)
    if isinstance(v, Agg):
        return Agg(v.tag, [deep(I, x, pc) for x in v.f])
    if isinstance(v, Seq):
        return Seq([deep(I, x, pc) for x in v.e])
    if isinstance(v, IterV):
        return IterV(v.kind, *[deep(I, x, pc) if isinstance(x, (V, Poly, Bdd)) else x for x in v.a])
    return v


def get(v, path):
    for i in path:
        v = v.f[i] if isinstance(v, Agg) else v.e[i] if isinstance(v, Seq) else v.a[i]
    return v


def expand(p):
    """32-bit words and their shifts written with the bits they consist of"""
    mp = {}
    for g in p.gens():
        gg = T.C.gens[g]
        if gg.kind == 'digit':
            n, idx = gg.args
            mp[g] = sum((kb(n, idx.scale(32) + s).scale(1 << s) for s in range(32)), ZERO)
    return p.subs(mp) if mp else p


def kb(n, pos):
    return T.kbit(n, P(pos))


class Step:
    """one abstract iteration: continuing state, exits"""
    __slots__ = ('cont', 'exits', 'rets', 'panics')


class Loops:
    def __init__(self, I):
        self.I = I
        self.cd = I.cd
        self.count = 0
        self.fresh = 0
        self.notes = []
        I.summarise = self.component
        I.loop_notes = lambda: '; no invariant: ' + ' | '.join(dict.fromkeys(self.notes[-3:])) if self.notes else ''
        I.models.summarise = self.closure_loop
        I.models.summary_step = Step
        I.merge = self.merge

    def merge(self, v, pc):
        """formal multiples are merged into one where paths meet"""
        if isinstance(v, Un):
            m = mult_of(self.I, v, pc)
            return v if m is None else fm(m)
        if isinstance(v, Agg):
            f = [self.merge(x, pc) for x in v.f]
            return v if all(x is y for x, y in zip(f, v.f)) else Agg(v.tag, f)
        return v

    # ------------------------------------------------------------ adaptors
    def component(self, I, e, fr, entry, snap):
        head, body, comp = e

        def run(st):
            I.rollback(fr, snap)
            n0 = {b: len(l) for b, l in fr.pending.items()}
            r0 = len(fr.rets)
            p0 = len(I.panics)
            I.exec_block(head, fr, st)
            I.process(body, fr)
            s = Step()
            l = fr.pending.pop(head, None)
            s.cont = I.join(l, fr, head) if l else None
            s.exits = [(b, x) for b, l in fr.pending.items() for x in l[n0.get(b, 0):]]
            s.rets = fr.rets[r0:]
            s.panics = I.panics[p0:]
            I.rollback(fr, snap)
            return s
        r = self.summarise(run, entry)
        I.rollback(fr, snap)
        if r is None:
            return False
        exits, rets, panics = r
        for b, s in exits:
            fr.pending.setdefault(b, []).append(s)
        fr.rets.extend(rets)
        I.panics.extend(panics)
        return True

    def closure_loop(self, run, entry):
        """a loop given by its step function (for iterator adaptors)"""
        return self.summarise(run, entry)

    # ------------------------------------------------------------ the summary
    def sources(self, entry):
        """(k, number of positions, chunk width) candidates"""
        gens = {}
        seen = set()

        def go(v, d=0):
            if d > 8 or id(v) in seen:
                return
            seen.add(id(v))
            if isinstance(v, Poly):
                for g in v.gens():
                    gens[g] = T.C.gens[g]
            elif isinstance(v, Agg):
                for x in v.f:
                    go(x, d + 1)
            elif isinstance(v, Seq):
                for x in v.e:
                    go(x, d + 1)
            elif isinstance(v, (IterV, Opq)):
                for x in v.a:
                    go(x, d + 1)
            elif isinstance(v, Un):
                for _, x in v.alts:
                    go(x, d + 1)
        for v in entry.mem.values():
            go(v)
        ks = []

        def note(k):
            if k not in ks:
                ks.append(k)

        def scan(g, d=0):
            if g.kind == 'bits':
                note(g.args[0])
            if d < 4:
                for a in g.args:
                    if isinstance(a, Poly):
                        for h in a.gens():
                            scan(T.C.gens[h], d + 1)
        for g in gens.values():
            scan(g)
        out = []
        for k in ks:
            L = self.I.models.bd.bits(k)
            out.append((k, L, 1))
            out.append((k, T.floordiv(L + 31, 32), 32))
        return out

    def summarise(self, run, entry):
        entry = entry.copy()
        for key, v in list(entry.mem.items()):
            entry.mem[key] = deep(self.I, v, entry.pc)
        try:
            s = run(entry.copy())
        except Unsupported as x:
            self.notes.append('first iteration: %s' % x)
            return None
        if s.cont is None or s.rets:
            return None
        moving = []
        for key, v0 in entry.mem.items():
            v1 = s.cont.mem.get(key)
            if v1 is None:
                continue
            for path, a, b in differ(v0, deep(self.I, v1, s.cont.pc)):
                moving.append((key, path, a, self.tidy(b, s.cont.pc)))
        tried = False
        srcs = self.sources(entry)
        # an integer that is halved in every step
        for key, path, a, b in moving:
            if isinstance(a, Poly) and isinstance(b, Poly) and a.const() is None and b == T.floordiv(a, 2) \
                    and T.nonneg(a):
                srcs.append((a, None, 1))
        for src in srcs:
            for desc in ((True, False) if src[1] is not None else (False,)):
                try:
                    r = self.attempt(run, entry, moving, src, desc)
                except (Unsupported, T.TooBig) as x:
                    self.notes.append('%s %s: %s' % (str(src[0])[:200], 'down' if desc else 'up', str(x)[:500] or 'too big'))
                    tried = True
                    continue
                if r is not None:
                    self.count += 1
                    return r
        if tried:
            raise Unsupported('no invariant for a loop over the digits of an integer: ' +
                              ' | '.join(dict.fromkeys(self.notes[-3:])))
        return None

    def tidy(self, b, pc):
        b = self.I.simp(b, pc)
        if isinstance(b, Un):
            m = mult_of(self.I, b, pc)
            if m is not None:
                return fm(m)
            c = collapse(self.I, b, pc)
            if c is not None:
                return c
        if isinstance(b, Opq) and b.name == 'fm':
            return b
        return b

    def attempt(self, run, entry, moving, src, desc):
        I, cd = self.I, self.cd
        k, N, width = src
        halve = N is None
        pos, data, late = [], [], []
        for key, path, a, b in moving:
            if halve and a == k and b == T.floordiv(k, 2):
                pos.append((key, path, a, None))
                continue
            if not halve and isinstance(a, Poly) and isinstance(b, Poly) and (b - a).const() in (1, -1):
                d = int((b - a).const())
                if a == (N if d < 0 else ZERO):
                    pos.append((key, path, a, d))
                    continue
                if d < 0 and desc and width == 1 and a == N - 1 and \
                        theory.valid(cd, ~cd.eq(k, ZERO), entry.pc):
                    late.append((key, path, a, d))
                    continue
            data.append((key, path, a))
        # the leading bit of a positive integer is one: a loop may start after it
        skip = 1 if late and not pos else 0
        if skip:
            pos = late
        else:
            data += [(key, path, a) for key, path, a, _ in late]
        if not pos:
            return None
        self.fresh += 1
        jname = 'pos#%d' % self.fresh
        if halve:
            # the integer is 2 E + b before the step and E after it
            j = T.sym(jname, 0)
            tstep = j
            bit = T.sym('bit%s' % jname, 0, 1)
        else:
            j = T.sym(jname, 0, ub=(N - 1 - skip,))
            tstep = N - 1 - j if desc else j
        if halve:
            chunk = [bit]
        elif width == 1:
            chunk = [kb(k, j)]
        else:
            chunk = [kb(k, j.scale(32) + s) for s in range(32)]
        cval = sum((c.scale(1 << i) for i, c in enumerate(chunk)), ZERO)
        b0 = chunk[0].single_gen().id
        none = {c.single_gen().id: ZERO for c in chunk}

        def place(vals, t):
            """entry memory with the moving slots at step t"""
            st = entry.copy()
            for key, path, a, d in pos:
                if halve:
                    x = ZERO if t is None else t.scale(2) + bit
                    st.mem[key] = put(st.mem[key], path, x)
                    if t is not None:
                        st.pc = st.pc & cd.ge(x - 1, st.pc)
                    continue
                st.mem[key] = put(st.mem[key], path, a + (t - skip).scale(d))
            for (key, path, a), v in zip(data, vals):
                st.mem[key] = put(st.mem[key], path, v)
            return st

        def read(st, key, path):
            v = st.mem.get(key)
            if v is None:
                raise Unsupported('a slot disappears')
            return get(deep(I, v, st.pc), path)

        def once(vals, t):
            s = run(place(vals, t))
            if s.exits or s.rets:
                raise Unsupported('the loop may be left early: %s' % ([(b, x.pc) for b, x in s.exits][:2],))
            if s.cont is None:
                return s
            for key, path, a, d in pos:
                v = read(s.cont, key, path)
                want = t if halve else a + (t - skip).scale(d) + d
                if not self.equal(v, want, s.cont.pc):
                    raise Unsupported('position %r: becomes %r' % (a, v))
            return s

        # ---- fit
        s = once([a for _, _, a in data], tstep)
        if s.cont is None:
            return None
        D = T.sym('pre#%d' % self.fresh if desc else 'low#%d' % self.fresh, skip)
        W = None if desc else T.sym('pw#%d' % self.fresh, 1)
        temp = []
        for key, path, a in data:
            v = self.tidy(read(s.cont, key, path), s.cont.pc)
            a1, v1 = self.num(a), self.num(v)
            if a1 is not None and v1 is not None and isinstance(a, Poly) == isinstance(v, Poly):
                v1 = linear01(expand(v1))
                rest = v1.subs(none)
                c1 = v1.subs({**none, b0: ONE}) - rest
                if desc:
                    c = (a1 - c1.scale(skip), c1, None)
                else:
                    # a = c0 + c2, rest = c0 + 2^w c2
                    q = rest - a1
                    c2 = ZERO
                    if q != ZERO:
                        den = (1 << width) - 1
                        c2 = q.scale(__import__('fractions').Fraction(1, den)) if den > 1 else q
                        if any(type(x) is not int for x in c2.d.values()):
                            raise Unsupported('no template for %r -> %r' % (a, v))
                    c = (a1 - c2, c1, c2)
                if any(x is not None and T.depends(x, {j.single_gen().id}) for x in c):
                    raise Unsupported('the coefficients of %r -> %r depend on the position' % (a, v))
                temp.append(('num', isinstance(a, Poly), c))
            elif skip:
                raise Unsupported('a flag in a loop that starts after the leading bit')
            elif isinstance(a, Bdd) and isinstance(v, Bdd) and a.const() is not None:
                temp.append(('bool', a, ~a))
            else:
                temp.append(('flag', a, v))
        flag0 = cd.eq(D, ZERO)
        if not desc:
            flag0 = cd.mgr.var(('b', 'first#%d' % self.fresh))

        def at(D, W, first):
            out = []
            for kind, x, c in temp:
                if kind == 'num':
                    m = c[0] + c[1] * D + (c[2] * W if c[2] is not None else ZERO)
                    out.append(m if x else fm(m))
                elif kind == 'bool':
                    z = cd.eq(D, ZERO)
                    out.append((z & x) | (~z & c))
                else:
                    out.append(mkun([(first, x), (~first, c)], cd.mgr))
            return out

        for kind, x, c in temp:
            if kind == 'flag' and jname in repr((x, c)):
                raise Unsupported('a slot depends on the position')
        # ---- verify: one iteration from the template at a generic position
        s = once(at(D, W, flag0), tstep)
        panics = list(s.panics)
        if s.cont is not None:
            pc = s.cont.pc
            if desc:
                D2, W2 = D.scale(1 << width) + cval, None
            else:
                D2, W2 = D + W * cval, W.scale(1 << width)
            # nothing but zero bits read so far (all terms are non-negative)
            zero2 = cd.eq(D, ZERO)
            for c in chunk:
                zero2 = zero2 & cd.eq(c, ZERO)
            first2 = zero2 if desc else None
            for (key, path, a), (kind, x, c) in zip(data, temp):
                v = read(s.cont, key, path)
                if kind == 'num':
                    want = c[0] + c[1] * D2 + (c[2] * W2 if c[2] is not None else ZERO)
                    if not self.agree(v, want, pc, x):
                        raise Unsupported('slot %s%s: %r after an iteration, template %r' % (key, path, v, want))
                elif kind == 'bool':
                    want = (zero2 & x) | (~zero2 & c)
                    if not isinstance(v, Bdd) or not theory.valid(cd, v.iff(want), pc):
                        raise Unsupported('flag %s%s: %r after an iteration' % (key, path, v))
                else:
                    ok = cd.F
                    for g, y in I.alts(v, pc):
                        if y == c and (desc or True):
                            ok = ok | (g & (~first2 if first2 is not None else cd.T))
                        if y == x and first2 is not None:
                            ok = ok | (g & first2)
                    if not theory.valid(cd, ok, pc):
                        raise Unsupported('slot %s%s: %r after an iteration' % (key, path, v))
            # everything else is unchanged
            known = {}
            for key, path, *_ in pos:
                known.setdefault(key, []).append(path)
            for key, path, _ in data:
                known.setdefault(key, []).append(path)
            for key, v0 in entry.mem.items():
                v1 = s.cont.mem.get(key)
                if v1 is None or v1 is v0:
                    continue
                for path, a, b in differ(v0, deep(I, v1, pc)):
                    if not any(path[:len(q)] == q for q in known.get(key, ())):
                        raise Unsupported('slot %s%s changes in a later iteration: %r to %r' % (key, path, a, b))
        # ---- leave
        Wn = None if desc else T.sym('pwn#%d' % self.fresh, 1)
        zero = cd.eq(k, ZERO)
        lf = zero if desc else cd.mgr.var(('b', 'none#%d' % self.fresh))
        s = run(place(at(k, Wn, lf), N))
        if s.cont is not None:
            raise Unsupported('the loop continues past the last position when %r' % (s.cont.pc,))
        self.notes.append('summary: %s of %s, %s first, %d slots' % (
            'halves' if halve else 'bits' if width == 1 else 'words', k, 'most significant' if desc else 'least significant', len(data)))
        return s.exits, s.rets, panics + s.panics

    def num(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, Opq) and v.name == 'fm':
            return v.a[0]
        return None

    def equal(self, v, want, pc):
        for g, x in self.I.alts(v, pc):
            if not isinstance(x, Poly):
                return False
            if x != want and not theory.valid(self.cd, self.cd.eq(x, want, pc & g), pc & g):
                return False
        return True

    def agree(self, v, want, pc, plain):
        want = linear01(expand(want))
        for g, x in self.I.alts(v, pc):
            m = x if plain and isinstance(x, Poly) else x.a[0] if not plain and isinstance(x, Opq) and x.name == 'fm' \
                else None
            if m is None:
                return False
            if not multiple_ok(self.I, linear01(expand(m)), want, pc & g):
                return False
        return True


def annihilators():
    """[(generator, multiplier m)]: conditions 'm times the base is neutral'"""
    return [(g, g.args[0]) for g in T.C.gens if g.kind == 'annih']


def multiple_ok(I, m, want, pc):
    """m = want up to multiples that the path condition says are neutral"""
    cd = I.cd
    d = linear01(expand(m - want))
    if d == ZERO:
        return True
    ok = cd.eq(d, ZERO, pc)
    for g, a in annihilators():
        q = None
        if a.const() is not None:
            if a.const() and all(type(c) is int and c % a.const() == 0 for c in d.d.values()):
                q = ONE
        else:
            r = T.lex_div(d, a, None) if False else None
            for c in (1, -1, 2, -2):
                if d == a.scale(c):
                    q = ONE
        if a.const() in (1, -1) or q is not None:
            ok = ok | cd.eq(P(g), ONE)
    # the bits decide: compare by cases of the remaining 0/1 generators
    if theory.valid(cd, ok, pc):
        return True
    return by_bits(I, d, ok, pc)


def by_bits(I, d, ok, pc, depth=6):
    """valid after splitting on the 0/1 generators of the difference"""
    cd = I.cd
    if pc.is_false() or theory.refuted(cd, pc):
        return True
    if d == ZERO:
        return True
    gs = [g for g in sorted(d.gens()) if T.C.gens[g].lo == 0 and T.C.gens[g].hi == 1]
    if not gs or depth == 0:
        return theory.valid(cd, ok | cd.eq(d, ZERO, pc), pc)
    g = gs[0]
    is1 = cd.eq(P(T.C.gens[g]), ONE)
    return by_bits(I, d.subs({g: ONE}), ok, pc & is1, depth - 1) and \
        by_bits(I, d.subs({g: ZERO}), ok, pc & ~is1, depth - 1)


class Formal:
    """values of an abstract cyclic group: the multiples of one unknown element

    `tpl` is a concrete value of the type; `parts` the positions of its fields that
    depend on the element.  Operations are given by contracts: function id ->
    integer coefficients of the arguments."""

    def __init__(self, I, tpl, parts):
        self.I, self.tpl, self.parts = I, tpl, parts

    def make(self, m):
        v = self.tpl
        for p in self.parts:
            v = put(v, p, fm(m))
        return v

    def mult(self, v, pc):
        """Poly multiplier of a value (or union) of this type, None when it is not formal"""
        if isinstance(v, Un):
            alts = [(g, self.mult(x, pc & g)) for g, x in v.alts if not (g & pc).is_false()]
            if not alts or any(m is None for _, m in alts):
                return None
            return collapse(self.I, mkun(alts, self.I.cd.mgr), pc)
        if not isinstance(v, Agg) or v.tag != self.tpl.tag:
            return None
        s = self.split(v, pc)
        if s is not v:
            return self.mult(s, pc)
        ms = [mult_of(self.I, get(v, p), pc) for p in self.parts]
        if any(m is None for m in ms):
            return None
        if any(m != ms[0] for m in ms[1:]):
            raise Unsupported('parts of different elements are mixed')
        base = v
        for p in self.parts:
            base = put(base, p, get(self.tpl, p))
        if base != self.tpl:
            raise Unsupported('an element of another structure')
        return ms[0]

    def split(self, v, pc):
        """a value whose parts are unions of formal and concrete ones, as a union of values"""
        for p in self.parts:
            x = get(v, p)
            if isinstance(x, Un):
                alts = [(g, y) for g, y in x.alts if not (g & pc).is_false()]
                fms = [isinstance(y, Opq) and y.name == 'fm' for _, y in alts]
                if any(fms) and not all(fms):
                    return Un([(g, put(v, p, y)) for g, y in alts])
        return v

    def value(self, a, st):
        n = 0
        while isinstance(a, Ptr) and n < 4:
            a = self.I.read_loc(('m', a.obj, a.path, None), st)
            n += 1
        if isinstance(a, Un) and any(isinstance(x, Ptr) for _, x in a.alts):
            return mkun([(g, self.value(x, st)) for g, x in a.alts if not (g & st.pc).is_false()],
                        self.I.cd.mgr)
        return a

    def contract(self, coeffs, target=None):
        """hook: result = sum coeffs[i] * argument i; stored through argument `target` when given"""
        def h(I, fn, args, st):
            m = ZERO
            for c, a in zip(coeffs, args):
                if c is None:
                    continue
                v = self.mult(self.value(a, st), st.pc)
                if v is None:
                    return NotImplemented
                m = m + v.scale(c)
            r = self.make(linear01(m))
            if target is None:
                return r
            I.models.setp(args[target], r, st)
            return UNIT
        return h

    def constant(self, m, same=None):
        def h(I, fn, args, st):
            if same is not None and not same(args, st):
                return NotImplemented
            return self.make(m)
        return h

    def neutral_test(self, negated=False):
        def h(I, fn, args, st):
            m = self.mult(self.value(args[0], st), st.pc)
            if m is None:
                return NotImplemented
            if m == ZERO:
                r = I.cd.T
            else:
                z = I.cd.eq(m, ZERO, st.pc)
                r = z | I.cd.eq(P(T.C.gen('annih', (m,), 0, 1)), ONE)
            return ~r if negated else r
        return h
