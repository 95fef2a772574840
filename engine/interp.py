"""Forward dataflow over MIR with gated joins.

Every block of a function is visited once per entry into its innermost loop
component (weak topological order); states reaching a block along several edges
are merged into one state whose values are guarded unions (gated SSA).  No path
is enumerated and nothing is executed: values are terms of `terms`, conditions
are decision diagrams over atoms (`conds`).
"""
import sys
from . import terms as T
from .counting import Counting
from .terms import Poly, P, ZERO, ONE
from .bdd import Bdd
from .values import *
from .values import Unsupported
from .conds import Conds

sys.setrecursionlimit(20000)

TRANSPARENT = ('std::mem::MaybeUninit', 'std::mem::ManuallyDrop', 'core::mem::MaybeDangling',
               'std::mem::MaybeDangling', 'std::ptr::NonNull', 'core::ptr::Unique', 'std::ptr::Unique',
               'core::mem::maybe_dangling::MaybeDangling')

MAX_SYMBOLIC = 40
MAX_ITER = 6000


class State:
    __slots__ = ('mem', 'pc')

    def __init__(self, mem, pc):
        self.mem, self.pc = mem, pc

    def copy(self):
        return State(dict(self.mem), self.pc)


class Panic:
    __slots__ = ('guard', 'kind', 'fn', 'line', 'stack')

    def __init__(self, guard, kind, fn, line, stack):
        self.guard, self.kind, self.fn, self.line, self.stack = guard, kind, fn, line, stack

    def __repr__(self):
        return 'panic(%s at %s:%s when %r)' % (self.kind, self.fn, self.line, self.guard)


class Cfg:
    """per function: successors, WTO, liveness"""

    def __init__(self, fn, prog):
        self.fn = fn
        B = fn.blocks
        self.succ = []
        for b in B:
            t = b['t']
            k = t[0]
            if k == 'goto':
                s = [t[1]]
            elif k == 'switch':
                s = [x[1] for x in t[2]] + [t[3]]
            elif k == 'drop':
                s = [t[2]]
            elif k == 'call':
                s = [t[4]] if t[4] is not None else []
            elif k == 'assert':
                s = [t[4]]
            else:
                s = []
            self.succ.append([x for x in s if x is not None])
        self.reach = self._reach()
        self.wto = self._wto(set(self.reach), 0, self._order())
        self.addr = set()
        self._live()

    def _reach(self):
        seen, st = {0}, [0]
        while st:
            b = st.pop()
            for s in self.succ[b]:
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen

    def _order(self):
        """reverse postorder index from block 0"""
        seen, post = set(), []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                st.pop()
        return {b: i for i, b in enumerate(reversed(post))}

    def _sccs(self, nodes, cut):
        """Tarjan on the subgraph `nodes` without edges into `cut`; topological order"""
        index, low, onst, st, out = {}, {}, set(), [], []
        cnt = [0]
        for root in sorted(nodes, key=lambda b: self._ord[b]):
            if root in index:
                continue
            work = [(root, iter([s for s in self.succ[root] if s in nodes and s != cut]))]
            index[root] = low[root] = cnt[0]
            cnt[0] += 1
            st.append(root)
            onst.add(root)
            while work:
                b, it = work[-1]
                adv = False
                for s in it:
                    if s not in index:
                        index[s] = low[s] = cnt[0]
                        cnt[0] += 1
                        st.append(s)
                        onst.add(s)
                        work.append((s, iter([x for x in self.succ[s] if x in nodes and x != cut])))
                        adv = True
                        break
                    elif s in onst:
                        low[b] = min(low[b], index[s])
                if adv:
                    continue
                work.pop()
                if work:
                    p = work[-1][0]
                    low[p] = min(low[p], low[b])
                if low[b] == index[b]:
                    comp = set()
                    while True:
                        x = st.pop()
                        onst.discard(x)
                        comp.add(x)
                        if x == b:
                            break
                    out.append(comp)
        out.reverse()
        return out

    def _wto(self, nodes, entry, order):
        self._ord = order
        return self._wto_rec(nodes, None)

    def _wto_rec(self, nodes, cut):
        res = []
        for comp in self._sccs(nodes, cut):
            if len(comp) == 1:
                b, = comp
                if b in self.succ[b] and b != cut:
                    res.append((b, [], comp))
                else:
                    res.append(b)
                continue
            head = min(comp, key=lambda b: self._ord[b])
            rest = self._wto_rec(comp - {head}, head)
            res.append((head, rest, comp))
        return res

    def _live(self):
        B = self.fn.blocks
        n = len(self.fn.locals)
        gen, kill = [], []
        for b in B:
            use, dfn = set(), set()

            def u(l):
                if l not in dfn:
                    use.add(l)

            def place_use(p):
                u(p[0])
                for e in p[1]:
                    if e != '*' and e[0] == 'i':
                        u(e[1])

            def opnd(o):
                if o[0] in ('cp', 'mv'):
                    place_use(o[1])

            def walk(x):
                if isinstance(x, list):
                    if len(x) == 2 and x[0] in ('cp', 'mv') and isinstance(x[1], list):
                        place_use(x[1])
                        return
                    for y in x:
                        walk(y)

            for s in b['s']:
                if isinstance(s[0], str):
                    if s[0] == 'sd':
                        place_use(s[1])
                    else:
                        walk(s[1:])
                    continue
                r = s[1]
                if r[0] in ('ref', 'addr', 'rawptr', 'len', 'disc', 'reborrow') and isinstance(r[1], list):
                    place_use(r[1])
                    if r[0] not in ('len', 'disc') and '*' not in r[1][1]:
                        self.addr.add(r[1][0])
                else:
                    walk(r[1:])
                if s[0][1]:
                    place_use(s[0])
                else:
                    dfn.add(s[0][0])
            t = b['t']
            if t[0] == 'switch':
                opnd(t[1])
            elif t[0] == 'call':
                opnd(t[1])
                for a in t[2]:
                    opnd(a)
                if t[3][1]:
                    place_use(t[3])
                else:
                    dfn.add(t[3][0])
            elif t[0] == 'assert':
                opnd(t[1])
            elif t[0] == 'ret':
                u(0)
            gen.append(use)
            kill.append(dfn)
        live = [set() for _ in B]
        ch = True
        while ch:
            ch = False
            for b in range(len(B) - 1, -1, -1):
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                i = gen[b] | (o - kill[b])
                if i != live[b]:
                    live[b] = i
                    ch = True
        self.live = live


class Frame:
    __slots__ = ('fn', 'fid', 'pending', 'rets', 'line')

    def __init__(self, fn, fid):
        self.fn, self.fid = fn, fid
        self.pending = {}
        self.rets = []
        self.line = None


class Interp:
    def __init__(self, prog, conds=None):
        self.prog = prog
        self.cd = conds or Conds()
        self.panics = []
        self.nobj = 0
        self.nframe = 0
        self.frames = []
        self.constobj = {}
        self.constval = {}
        self.init_mem = {}
        self.dynty = {}
        self.fuel = 4000000
        self.calls = 0
        self.called = set()          # ids of functions analysed
        self.sites = 0
        self.fmodel = {}
        self.hooks = {}              # fn id -> callable
        self.virtual_hook = None
        self.call_hook = None
        self.summarise = Counting(self)
        self.loop_notes = None
        self.merge = None
        self.log = []
        from . import models
        self.models = models.Models(self)

    # ------------------------------------------------------------ objects
    def new_obj(self, kind='h'):
        self.nobj += 1
        return (kind, self.nobj)

    def alloc(self, st, v, kind='h'):
        o = self.new_obj(kind)
        st.mem[o] = v
        return o

    def fresh(self, name, **kw):
        self.nobj += 1
        return T.sym('%s#%d' % (name, self.nobj), **kw)

    # ------------------------------------------------------------ states
    def start(self, pc=None):
        return State(dict(self.init_mem), pc if pc is not None else self.cd.T)

    def join(self, states, fr=None, block=None):
        if len(states) == 1:
            st = states[0]
            if fr is not None:
                self.prune(st, fr, block)
            return st
        pcs = [s.pc for s in states]
        tot = self.cd.F
        for p in pcs:
            tot = tot | p
        if fr is not None:
            for s in states:
                self.prune(s, fr, block)
        gs = [self.cd.simp(p, tot) for p in pcs]
        keys = set()
        for s in states:
            keys.update(s.mem)
        mem = {}
        m0 = states[0].mem
        for k in keys:
            v0 = m0.get(k)
            same = v0 is not None
            if same:
                for s in states[1:]:
                    v = s.mem.get(k)
                    if v is not v0 and v != v0:
                        same = False
                        break
            if same:
                mem[k] = v0
                continue
            v = mkun([(g, s.mem[k]) for g, s in zip(gs, states) if k in s.mem], self.cd.mgr)
            mem[k] = v if self.merge is None else self.merge(v, tot)
        return State(mem, tot)

    def prune(self, st, fr, block):
        c = fr.fn.cfg
        live = c.live[block]
        fid = fr.fid
        for i in range(len(fr.fn.locals)):
            if i not in live and i not in c.addr:
                st.mem.pop((fid, i), None)

    def panic(self, st, guard, kind, line=None):
        g = st.pc & guard
        if not g.is_false():
            fr = self.frames[-1] if self.frames else None
            stack = tuple(f.fn.name for f in self.frames)
            self.panics.append(Panic(g, kind, fr.fn.name if fr else '?', line or (fr.line if fr else None), stack))
        st.pc = st.pc & ~guard

    # ------------------------------------------------------------ values
    def simp(self, v, pc):
        """drop alternatives that the path condition excludes"""
        if isinstance(v, Un):
            alts = [(g, x) for g, x in v.alts if not (g & pc).is_false()]
            if len(alts) == 1:
                return alts[0][1]
            if len(alts) != len(v.alts):
                return mkun(alts, self.cd.mgr)
        elif isinstance(v, EnumV) and len(v.alts) > 1:
            alts = [(g, i, f) for g, i, f in v.alts if not (g & pc).is_false()]
            if len(alts) != len(v.alts):
                return EnumV(v.tid, alts)
        return v

    def alts(self, v, pc):
        """(guard, value) alternatives of v compatible with pc"""
        if isinstance(v, Un):
            return [(g, x) for g, x in v.alts if not (g & pc).is_false()]
        return [(self.cd.T, v)]

    def lift(self, f, args, pc):
        """apply f to every combination of alternatives"""
        m = self.cd.mgr
        if not any(isinstance(a, Un) for a in args):
            return f(*args)
        combos = [(m.T, ())]
        for a in args:
            nx = []
            for g, vs in combos:
                for g2, v in (a.alts if isinstance(a, Un) else ((m.T, a),)):
                    gg = g & g2
                    if (gg & pc).is_false():
                        continue
                    nx.append((gg, vs + (v,)))
            combos = nx
            if len(combos) > 4000:
                raise Unsupported('too many guarded alternatives')
        out = []
        for g, vs in combos:
            out.append((self.cd.simp(g, pc), f(*vs)))
        return mkun(out, m)

    def bool2int(self, b):
        if isinstance(b, Poly):
            return b
        c = b.const()
        if c is not None:
            return P(int(c))
        if b.lo.v < 0 and b.hi.v < 0:
            a = self.cd.mgr.atoms[b.v]
            if a[0] == 'bit':
                g = P(T.C.gens[a[1]])
                return g if b.hi.is_true() else 1 - g
        g = P(T.C.gen('ind', (b,), 0, 1))
        # the indicator of a condition
        self.cd.indicator(T.C.table[('ind', (b,))].id, b)
        return g

    def as_bool(self, v, pc):
        if isinstance(v, Bdd):
            return v
        if isinstance(v, Un):
            r = self.cd.F
            for g, x in v.alts:
                r = r | (g & self.as_bool(x, pc))
            return r
        if isinstance(v, Poly):
            return ~self.cd.eq(v, ZERO, pc)
        raise Unsupported('boolean expected, got %r' % (v,))

    def wrap(self, v, ty, pc):
        """reduce an integer into the range of the machine type"""
        lo, hi = self.int_range(ty)
        if self.cd.ge(v - lo, pc).is_true() and self.cd.ge(hi - v, pc).is_true():
            return v
        w = hi - lo + 1
        if v.is_const():
            return P((v.const() - lo) % w + lo)
        over = ~self.cd.ge(hi - v, pc)
        under = ~self.cd.ge(v - lo, pc)
        # one wrap around is enough?
        if self.cd.ge(v - w - lo + w, pc).is_true() or True:
            okhi = self.cd.ge(hi + w - v, pc)
            oklo = self.cd.ge(v + w - lo, pc)
            if okhi.is_true() and oklo.is_true():
                return mkun([(~over & ~under & pc, v), (over & pc, v - w), (under & ~over & pc, v + w)], self.cd.mgr)
        return T.mod(v - lo, P(w)) + lo

    def int_range(self, ty):
        t = self.prog.types[ty]
        k = t['k']
        if k == 'uint':
            return 0, (1 << t['w']) - 1
        if k == 'int':
            return -(1 << (t['w'] - 1)), (1 << (t['w'] - 1)) - 1
        if k == 'char':
            return 0, 0x10ffff
        if k == 'bool':
            return 0, 1
        if k in ('ptr', 'ref', 'fnptr'):
            return 0, (1 << 64) - 1
        raise Unsupported('integer type expected: %s' % self.prog.tn[ty])

    # ------------------------------------------------------------ places
    def place_ty(self, fn, place):
        t = fn.locals[place[0]]
        for e in place[1]:
            t = self.proj_ty(t, e)
        return t

    def proj_ty(self, t, e):
        ty = self.prog.types[t]
        if e == '*':
            if ty['k'] in ('ref', 'ptr'):
                return ty['e']
            if ty['k'] == 'adt' and ty.get('box'):
                return ty['g'][0]
            raise Unsupported('deref of %s' % self.prog.tn[t])
        k = e[0]
        if k == 'f':
            return e[2]
        if k in ('i', 'c'):
            return ty['e']
        return t

    def transparent(self, t):
        ty = self.prog.types[t]
        if ty['k'] != 'adt':
            return False
        return ty['def'] in TRANSPARENT or ty.get('box')

    def resolve(self, place, fr, st):
        """[(guard, loc)]; loc = ('m', obj, path, sl) or ('v', value)"""
        local, proj = place
        locs = [(self.cd.T, ('m', (fr.fid, local), (), None))]
        t = fr.fn.locals[local]
        for e in proj:
            if e == '*':
                out = []
                for g, loc in locs:
                    v = self.read_loc(loc, st)
                    for g2, x in self.alts(v, st.pc):
                        gg = g & g2
                        if (gg & st.pc).is_false():
                            continue
                        out.append((gg, self.deref(x)))
                locs = out
            elif e[0] == 'f':
                if self.transparent(t):
                    pass
                else:
                    locs = [(g, self.step(l, ('f', e[1]))) for g, l in locs]
            elif e[0] == 'd':
                locs = [(g, self.step(l, ('d', e[1]))) for g, l in locs]
            elif e[0] == 'i':
                iv = self.read_loc(('m', (fr.fid, e[1]), (), None), st)
                out = []
                for g, l in locs:
                    for g2, x in self.alts(iv, st.pc):
                        out.append((g & g2, self.index_loc(l, x)))
                locs = out
            elif e[0] == 'c':
                off, mn, fe = e[1], e[2], e[3]
                out = []
                for g, l in locs:
                    if fe:
                        n = self.loc_len(l, st)
                        out.append((g, self.index_loc(l, n - off)))
                    else:
                        out.append((g, self.index_loc(l, P(off))))
                locs = out
            elif e[0] == 's':
                fm, to, fe = e[1], e[2], e[3]
                out = []
                for g, l in locs:
                    n = self.loc_len(l, st)
                    end = n - to if fe else P(to)
                    base = l[3][0] if l[3] else ZERO
                    out.append((g, ('m', l[1], l[2], (base + fm, end - fm))))
                locs = out
            elif e[0] == 'o':
                pass
            else:
                raise Unsupported('projection %r' % (e,))
            t = self.proj_ty(t, e)
        return locs

    def deref(self, v):
        if isinstance(v, Ptr):
            return ('m', v.obj, v.path, v.sl)
        if isinstance(v, BoxV):
            return ('m', v.obj, (), None)
        if isinstance(v, (Str, SymStr, StrV, Opq, FnV)):
            return ('v', v)
        raise Unsupported('dereference of %r' % (v,))

    def step(self, loc, e):
        if loc[0] == 'v':
            return ('v', self.proj(loc[1], e))
        return ('m', loc[1], loc[2] + (e,), None)

    def index_loc(self, loc, idx):
        if loc[0] == 'v':
            return ('v', self.proj(loc[1], ('i', idx)))
        if loc[3]:
            idx = loc[3][0] + idx
        return ('m', loc[1], loc[2] + (('i', idx),), None)

    def loc_len(self, loc, st):
        if loc[0] == 'm' and loc[3]:
            return loc[3][1]
        return self.models.seq_len(self.read_loc(loc, st), st)

    def read_loc(self, loc, st):
        if loc[0] == 'v':
            return loc[1]
        _, obj, path, sl = loc
        v = st.mem.get(obj)
        if v is None:
            v = self.const_mem(obj)
            if v is None:
                return UNINIT
        for e in path:
            v = self.proj(v, e, st)
        if sl is not None:
            return self.models.slice_val(v, sl, st)
        return v

    def const_mem(self, obj):
        return self.constval.get(obj)

    def proj(self, v, e, st=None):
        k = e[0]
        if isinstance(v, Un):
            pc = st.pc if st is not None else self.cd.T
            out = []
            for g, x in v.alts:
                if (g & pc).is_false():
                    continue
                if k == 'i' and st is not None:
                    st.pc = pc & g
                    try:
                        out.append((g, self.proj(x, e, st)))
                    finally:
                        st.pc = pc
                else:
                    out.append((g, self.proj(x, e, st)))
            return mkun(out, self.cd.mgr)
        if k == 'f':
            if isinstance(v, Agg):
                if e[1] >= len(v.f):
                    raise Unsupported('field %d of %r' % (e[1], v))
                return v.f[e[1]]
            if v is UNINIT:
                return UNINIT
            if isinstance(v, IterV):
                return self.models.iter_field(v, e[1])
            raise Unsupported('field %r of %r' % (e[1], v))
        if k == 'd':
            if isinstance(v, EnumV):
                out = [(g, Agg(('variant', v.tid, i), f)) for g, i, f in v.alts if i == e[1]]
                return mkun(out, self.cd.mgr)
            if v is UNINIT:
                return UNINIT
            raise Unsupported('variant %r of %r' % (e[1], v))
        if k == 'i':
            return self.models.seq_get(v, e[1], st)
        raise Unsupported('projection %r' % (e,))

    def write_loc(self, loc, val, st, guard=None):
        if loc[0] != 'm' or loc[3] is not None:
            raise Unsupported('write through %r' % (loc,))
        _, obj, path, _ = loc
        if not path:
            if guard is not None and obj in st.mem:
                val = mkun([(guard, val), (~guard, st.mem[obj])], self.cd.mgr)
            st.mem[obj] = val
            return
        base = st.mem.get(obj, UNINIT)
        st.mem[obj] = self.update(base, path, val, st, guard)

    def update(self, base, path, val, st, guard):
        if not path:
            if guard is not None and base is not UNINIT:
                return mkun([(guard, val), (~guard, base)], self.cd.mgr)
            return val
        e = path[0]
        if isinstance(base, Un):
            out = []
            pc = st.pc
            for g, x in base.alts:
                st.pc = pc & g
                if st.pc.is_false():
                    continue
                if guard is None or not (guard & st.pc).is_false():
                    x = self.update(x, path, val, st, guard)
                out.append((g, x))
            st.pc = pc
            return mkun(out, self.cd.mgr)
        if e[0] == 'f':
            if isinstance(base, Agg):
                f = list(base.f)
                while len(f) <= e[1]:
                    f.append(UNINIT)
                f[e[1]] = self.update(f[e[1]], path[1:], val, st, guard)
                return Agg(base.tag, f)
            if base is UNINIT:
                f = [UNINIT] * (e[1] + 1)
                f[e[1]] = self.update(UNINIT, path[1:], val, st, guard)
                return Agg('partial', f)
            if isinstance(base, IterV):
                return self.models.iter_update(base, e[1], self.update(
                    self.models.iter_field(base, e[1]), path[1:], val, st, guard))
            raise Unsupported('field write into %r' % (base,))
        if e[0] == 'd':
            if isinstance(base, EnumV):
                alts = []
                for g, i, f in base.alts:
                    if i == e[1]:
                        a = self.update(Agg('v', f), path[1:], val, st, guard)
                        alts.append((g, i, a.f))
                    else:
                        alts.append((g, i, f))
                return EnumV(base.tid, alts)
            if base is UNINIT:
                a = self.update(UNINIT, path[1:], val, st, guard)
                return ('partial-enum', e[1], a)
            raise Unsupported('variant write into %r' % (base,))
        if e[0] == 'i':
            pc = st.pc
            if guard is None:
                r = self.models.seq_set(base, e[1], lambda old: self.update(old, path[1:], val, st, None), st)
            else:
                st.pc = pc & guard
                r = self.models.seq_set(base, e[1], lambda old: self.update(old, path[1:], val, st, None), st)
                r = mkun([(guard, r), (~guard, base)], self.cd.mgr)
            st.pc = pc
            return r
        raise Unsupported('write %r' % (e,))

    def read(self, place, fr, st):
        locs = self.resolve(place, fr, st)
        if len(locs) == 1:
            return self.read_loc(locs[0][1], st)
        out = []
        pc = st.pc
        for g, l in locs:
            st.pc = pc & g
            if not st.pc.is_false():
                out.append((g, self.read_loc(l, st)))
        st.pc = pc
        return mkun(out, self.cd.mgr)

    def write(self, place, val, fr, st):
        if not place[1]:
            st.mem[(fr.fid, place[0])] = val
            return
        locs = [(g, l) for g, l in self.resolve(place, fr, st) if not (g & st.pc).is_false()]
        if len(locs) == 1:
            self.write_loc(locs[0][1], val, st)
        else:
            for g, l in locs:
                self.write_loc(l, val, st, g)

    # ------------------------------------------------------------ operands
    def operand(self, o, fr, st):
        k = o[0]
        if k == 'cp' or k == 'mv':
            v = self.read(o[1], fr, st)
            if v is UNINIT:
                if self.prog.types[self.place_ty(fr.fn, o[1])].get('size') == 0:
                    return Agg('zst', ())
                raise Unsupported('read of uninitialised %r in %s' % (o[1], fr.fn.name))
            return v
        if k == 'k':
            return self.const(o[1], st)
        if k == 'rc':
            return self.cd.F
        raise Unsupported('operand %r' % (o,))

    def op_ty(self, o, fr):
        if o[0] in ('cp', 'mv'):
            return self.place_ty(fr.fn, o[1])
        if o[0] == 'k':
            return o[1].get('t')
        return None

    def const(self, c, st=None):
        if 'i' in c:
            t = self.prog.types[c['t']]
            if t['k'] == 'bool':
                return self.cd.mgr.const(int(c['i']) != 0)
            if t['k'] == 'adt' and self.transparent(c['t']):
                return P(int(c['i']))
            if t['k'] == 'adt':
                return self.wrap_newtype(c)
            return P(int(c['i']))
        if 's' in c:
            return Str(c['s'])
        if 'fd' in c:
            return FnV(c.get('inst'), c['fd'], tuple(c.get('g') or ()))
        if 'st' in c:
            return Ptr(('static', c['st']))
        if 'r' in c:
            key = id(c)
            o = self.constobj.get(key)
            if o is None:
                o = ('const', len(self.constobj))
                self.constobj[key] = o
                self.constval[o] = self.const(c['r'])
            inner = c['r']
            if 'sl' in inner or 'a' in inner:
                v = self.constval[o]
                t = self.prog.types[c['t']] if 't' in c else None
                if t is not None and t['k'] in ('ref', 'ptr') and self.prog.types[t['e']]['k'] == 'slice':
                    return Ptr(o, (), (ZERO, self.models.seq_len(v, st)))
            return Ptr(o)
        if 'sl' in c:
            v = Seq([self.const(x) if isinstance(x, dict) else P(int(x)) for x in c['sl']])
            key = id(c)
            o = self.constobj.get(key)
            if o is None:
                o = ('const', len(self.constobj))
                self.constobj[key] = o
                self.constval[o] = v
            return Ptr(o, (), (ZERO, P(len(v.e))))
        if 'a' in c:
            return Seq([self.const(x) for x in c['a']])
        if 'f' in c:
            t = c['t']
            ty = self.prog.types[t]
            f = [self.const(x) for x in c['f']]
            if ty['k'] == 'adt' and ty['a'] == 'enum':
                return EnumV(t, [(self.cd.T, c['v'], tuple(f))])
            if ty['k'] == 'adt':
                if self.transparent(t):
                    return f[0]
                return Agg(t, f)
            if ty['k'] == 'array':
                return Seq(f)
            return Agg('tuple', f)
        if 'fn' in c:
            return FnV(c['fn'], c.get('name', 'fn%s' % c['fn']), ())
        if 'z' in c:
            t = self.prog.types[c['t']]
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'closure':
                return Agg(('closure', c['t']), ())
            if t['k'] == 'fndef':
                return FnV(t.get('inst'), t['def'], tuple(t.get('g') or ()))
            if t['k'] == 'array':
                return Seq(())
            if t['k'] == 'adt':
                if t['a'] == 'enum':
                    return EnumV(c['t'], [(self.cd.T, 0, ())])
                return Agg(c['t'], ())
            raise Unsupported('zero-sized constant of type %s' % self.prog.tn[c['t']])
        raise Unsupported('constant %s' % str(c)[:200])

    def wrap_newtype(self, c):
        t = self.prog.types[c['t']]
        fs = t['v'][0]['f']
        for i, (n, ft) in enumerate(fs):
            if self.prog.types[ft].get('size'):
                inner = self.const({'i': c['i'], 't': ft})
                return Agg(c['t'], [inner if j == i else UNIT for j in range(len(fs))])
        raise Unsupported('scalar constant of type %s' % self.prog.tn[c['t']])

    # ------------------------------------------------------------ rvalues
    def rvalue(self, r, fr, st, dest_ty):
        k = r[0]
        if k == 'use':
            return self.operand(r[1], fr, st)
        if k in ('ref', 'addr', 'rawptr', 'reborrow'):
            return self.borrow(r[1], fr, st)
        if k == 'bin':
            return self.binop(r[1], r[2], r[3], fr, st, dest_ty)
        if k == 'chk':
            a, b = self.operand(r[2], fr, st), self.operand(r[3], fr, st)
            ty = self.op_ty(r[2], fr)
            lo, hi = self.int_range(ty)

            def f(x, y):
                v = x + y if r[1] == 'Add' else x - y if r[1] == 'Sub' else x * y
                ov = ~(self.cd.ge(v - lo, st.pc) & self.cd.ge(hi - v, st.pc))
                return Agg('tuple', (v, ov))
            return self.lift(f, (a, b), st.pc)
        if k == 'un':
            return self.unop(r[1], r[2], fr, st)
        if k == 'cast':
            return self.cast(r[1], r[2], r[3], fr, st)
        if k == 'disc':
            v = self.read(r[1], fr, st)
            return self.discriminant(v, st)
        if k == 'len':
            locs = self.resolve(r[1], fr, st)
            return mkun([(g, self.loc_len(l, st)) for g, l in locs], self.cd.mgr)
        if k == 'rep':
            v = self.operand(r[1], fr, st)
            n = r[2]
            n = int(n) if not isinstance(n, int) else n
            return Seq([v] * n)
        if k == 'agg':
            vals = [self.operand(o, fr, st) for o in r[2]]
            a = r[1]
            if a[0] == 'tuple':
                return Agg('tuple', vals)
            if a[0] == 'array':
                return Seq(vals)
            if a[0] == 'closure':
                return Agg(('closure', a[1]), vals)
            if a[0] == 'adt':
                return self.mk_adt(a[1], a[2], vals, a[3] if len(a) > 3 else None)
            if a[0] == 'rawptr':
                return self.models.raw_ptr(vals, st)
            raise Unsupported('aggregate %r' % (a,))
        raise Unsupported('rvalue %r' % (k,))

    def mk_adt(self, t, variant, vals, active=None):
        ty = self.prog.types[t]
        if ty['a'] == 'enum':
            return EnumV(t, [(self.cd.T, variant, tuple(vals))])
        if self.transparent(t):
            for v in vals:
                if not (isinstance(v, Agg) and not v.f):
                    return v
            return vals[0]
        return Agg(t, vals)

    def discriminant(self, v, st):
        if isinstance(v, Un):
            return mkun([(g, self.discriminant(x, st)) for g, x in self.alts(v, st.pc)], self.cd.mgr)
        if isinstance(v, EnumV):
            ty = self.prog.types[v.tid]
            return mkun([(g, P(int(ty['v'][i]['d']))) for g, i, f in v.alts if not (g & st.pc).is_false()], self.cd.mgr)
        raise Unsupported('discriminant of %r' % (v,))

    def borrow(self, place, fr, st):
        out = []
        for g, loc in self.resolve(place, fr, st):
            if loc[0] == 'm':
                out.append((g, Ptr(loc[1], loc[2], loc[3])))
            elif isinstance(loc[1], (Str, SymStr, StrV, Opq, FnV)):
                out.append((g, loc[1]))
            else:
                out.append((g, Ptr(self.alloc(st, loc[1], 'tmp'))))
        return mkun(out, self.cd.mgr)

    def unop(self, op, o, fr, st):
        v = self.operand(o, fr, st)
        if op == 'Not':
            ty = self.op_ty(o, fr)
            if isinstance(v, Bdd) or (ty is not None and self.prog.types[ty]['k'] == 'bool'):
                return ~self.as_bool(v, st.pc)
            lo, hi = self.int_range(ty)
            return self.lift(lambda x: (P(hi) - x) if lo == 0 else (-x - 1), (v,), st.pc)
        if op == 'Neg':
            ty = self.op_ty(o, fr)
            return self.lift(lambda x: self.wrap(-x, ty, st.pc), (v,), st.pc)
        if op == 'PtrMetadata':
            def f(x):
                if isinstance(x, Ptr):
                    if x.sl:
                        return x.sl[1]
                    return self.models.seq_len(self.read_loc(('m', x.obj, x.path, None), st), st)
                return self.models.seq_len(x, st)
            return self.lift(f, (v,), st.pc)
        raise Unsupported('unary %s' % op)

    def binop(self, op, o1, o2, fr, st, dest_ty):
        a, b = self.operand(o1, fr, st), self.operand(o2, fr, st)
        ty = self.op_ty(o1, fr)
        return self.bin_vals(op, a, b, ty, st)

    def bin_vals(self, op, a, b, ty, st):
        cd, pc = self.cd, st.pc
        tk = self.prog.types[ty]['k'] if ty is not None else None
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if tk == 'bool' or isinstance(a, Bdd) or isinstance(b, Bdd):
                x, y = self.as_bool(a, pc), self.as_bool(b, pc)
                return {'Eq': lambda: x.iff(y), 'Ne': lambda: x ^ y, 'Lt': lambda: ~x & y, 'Gt': lambda: x & ~y,
                        'Le': lambda: ~x | y, 'Ge': lambda: x | ~y}[op]()

            def f(x, y):
                return self.compare(op, x, y, pc)
            return self.lift(f, (a, b), pc)
        if op in ('BitAnd', 'BitOr', 'BitXor') and (tk == 'bool' or isinstance(a, Bdd)):
            x, y = self.as_bool(a, pc), self.as_bool(b, pc)
            return x & y if op == 'BitAnd' else x | y if op == 'BitOr' else x ^ y
        if op == 'Offset':
            return self.models.ptr_offset(a, b, st)
        if op == 'Cmp':
            raise Unsupported('three-way comparison')

        def g(x, y):
            if isinstance(x, Bdd):
                x = self.bool2int(x)
            if isinstance(y, Bdd):
                y = self.bool2int(y)
            if not isinstance(x, Poly) or not isinstance(y, Poly):
                raise Unsupported('%s on %r and %r' % (op, x, y))
            return self.int_op(op, x, y, ty, st)
        return self.lift(g, (a, b), pc)

    def compare(self, op, x, y, pc):
        cd = self.cd
        if isinstance(x, Poly) and isinstance(y, Poly):
            if op == 'Eq':
                return cd.eq(x, y, pc)
            if op == 'Ne':
                return ~cd.eq(x, y, pc)
            if op == 'Ge':
                return cd.ge(x - y, pc)
            if op == 'Lt':
                return ~cd.ge(x - y, pc)
            if op == 'Le':
                return cd.ge(y - x, pc)
            if op == 'Gt':
                return ~cd.ge(y - x, pc)
        if op in ('Eq', 'Ne') and isinstance(x, (Ptr, BoxV, ArcV)) and type(x) is type(y):
            r = cd.mgr.const(x == y)
            return r if op == 'Eq' else ~r
        raise Unsupported('comparison %s of %r and %r' % (op, x, y))

    def int_op(self, op, x, y, ty, st):
        pc = st.pc
        if op in ('Add', 'AddUnchecked', 'AddWrapping'):
            return self.wrap(x + y, ty, pc)
        if op in ('Sub', 'SubUnchecked'):
            return self.wrap(x - y, ty, pc)
        if op in ('Mul', 'MulUnchecked'):
            return self.wrap(x * y, ty, pc)
        if op in ('Div', 'Rem'):
            c = y.const()
            g = x.single_gen()
            if c is not None and c > 1 and c & (c - 1) == 0 and g is not None and g.kind in ('digit', 'dshr'):
                k = int(c).bit_length() - 1
                return self.models.low_bits(x, k) if op == 'Rem' else self.models.shift_right(x, k, st)
            return self.int_div(op, x, y, pc)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            return self.models.bitop(op, x, y, ty, st)
        if op in ('Shl', 'ShlUnchecked'):
            return self.models.shl(x, y, ty, st)
        if op in ('Shr', 'ShrUnchecked'):
            return self.models.shr(x, y, ty, st)
        raise Unsupported('operator %s' % op)

    def int_div(self, op, x, y, pc):
        c = y.const()
        if c is None:
            raise Unsupported('division by the unknown %r' % (y,))
        if c > 0 and self.cd.ge(x, pc).is_true():
            return T.floordiv(x, c) if op == 'Div' else T.mod(x, P(c))
        if x.const() is not None:
            q = abs(x.const()) // abs(c)
            if (x.const() < 0) != (c < 0):
                q = -q
            return P(q) if op == 'Div' else x - P(q * c)
        if c > 0:
            # truncating division of a possibly negative number
            nn = self.cd.ge(x, pc)
            a = T.floordiv(x, c) if op == 'Div' else T.mod(x, P(c))
            b = -T.floordiv(-x, c) if op == 'Div' else -T.mod(-x, P(c))
            return mkun([(nn, a), (~nn, b)], self.cd.mgr)
        raise Unsupported('division by %r' % (y,))

    def cast(self, kind, o, ty, fr, st):
        v = self.operand(o, fr, st)
        src = self.op_ty(o, fr)
        prog = self.prog
        tk = prog.types[ty]['k']
        sk = prog.types[src]['k'] if src is not None else None
        if kind == 'IntToInt':
            def f(x):
                if isinstance(x, Bdd):
                    x = self.bool2int(x)
                return self.wrap(x, ty, st.pc)
            if isinstance(v, EnumV):
                v = self.discriminant(v, st)
            return self.lift(f, (v,), st.pc)
        if kind in ('PtrToPtr', 'FnPtrToPtr'):
            return v
        if kind.startswith('PointerCoercion'):
            if 'Unsize' in kind:
                return self.lift(lambda x: self.unsize(x, src, ty, st), (v,), st.pc)
            return v
        if kind in ('Transmute', 'BoxDerefTransmute', 'PointerExposeProvenance', 'PointerExposeAddress'):
            if tk in ('uint', 'int') and sk not in ('uint', 'int', 'bool', 'char'):
                def f(x):
                    if isinstance(x, Poly):
                        return x
                    return P(T.C.gen('addr', (repr(x),), 1, 1 << 58)).scale(16)
                return self.lift(f, (v,), st.pc)
            if kind == 'BoxDerefTransmute' or tk in ('ptr', 'ref'):
                def f(x):
                    if isinstance(x, BoxV):
                        return Ptr(x.obj)
                    return x
                return self.lift(f, (v,), st.pc)
            if tk == sk and tk in ('uint', 'int'):
                return self.lift(lambda x: self.wrap(x, ty, st.pc), (v,), st.pc)
            return v
        raise Unsupported('cast %s' % kind)

    def pointee(self, t):
        ty = self.prog.types[t]
        if ty['k'] in ('ref', 'ptr'):
            return ty['e']
        if ty['k'] == 'adt' and (ty.get('box') or ty['g']):
            return ty['g'][0]
        return None

    def unsize(self, x, src, dst, st):
        ps, pd = self.pointee(src), self.pointee(dst)
        kd = self.prog.types[pd]['k'] if pd is not None else None
        ks = self.prog.types[ps]['k'] if ps is not None else None
        if kd == 'slice' and ks == 'array':
            if isinstance(x, Ptr):
                return Ptr(x.obj, x.path, (ZERO, P(int(self.prog.types[ps]['n']))))
            return x
        if kd == 'dyn' and ks != 'dyn':
            if isinstance(x, BoxV):
                self.dynty[(x.obj, ())] = ps
                return BoxV(x.obj, ps)
            if isinstance(x, Ptr):
                self.dynty[(x.obj, x.path)] = ps
            elif isinstance(x, ArcV):
                self.dynty[(x.obj, ())] = ps
            return x
        return x

    # ------------------------------------------------------------ blocks
    def exec_block(self, b, fr, st):
        fn = fr.fn
        blk = fn.blocks[b]
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported('analysis budget exhausted')
        for s in blk['s']:
            if isinstance(s[0], str):
                if s[0] == 'sd':
                    self.set_disc(s, fr, st)
                    continue
                if s[0] in ('nop', 'live', 'dead'):
                    continue
                if s[0] == 'cno':
                    raise Unsupported('raw memory copy')
                raise Unsupported('statement %r' % (s[0],))
            fr.line = s[2] if len(s) > 2 else fr.line
            dt = self.place_ty(fn, s[0])
            v = self.rvalue(s[1], fr, st, dt)
            self.write(s[0], v, fr, st)
        t = blk['t']
        k = t[0]
        if k == 'goto':
            self.edge(fr, t[1], st)
        elif k == 'switch':
            self.switch(t, fr, st)
        elif k == 'ret':
            fr.rets.append(st)
        elif k == 'drop':
            self.edge(fr, t[2], st)
        elif k == 'call':
            self.call_term(t, fr, st)
        elif k == 'assert':
            v = self.as_bool(self.operand(t[1], fr, st), st.pc)
            ok = v if t[2] else ~v
            self.panic(st, ~ok, 'assert:' + str(t[3])[:40], t[5] if len(t) > 5 else None)
            self.edge(fr, t[4], st)
        elif k == 'unreach':
            # reaching it is undefined behaviour; only with an unprunable condition
            return
        elif k in ('resume', 'abort'):
            return
        else:
            raise Unsupported('terminator %s' % k)

    def set_disc(self, s, fr, st):
        raise Unsupported('set-discriminant')

    def edge(self, fr, b, st):
        if st.pc.is_false():
            return
        fr.pending.setdefault(b, []).append(st)

    def switch(self, t, fr, st):
        v = self.operand(t[1], fr, st)
        ty = self.op_ty(t[1], fr)
        cd, pc = self.cd, st.pc
        arms = []
        rest = cd.T
        isb = isinstance(v, Bdd) or self.prog.types[ty]['k'] == 'bool'
        if isb:
            v = self.as_bool(v, pc)
        for val, bb in t[2]:
            k = int(val)
            if isb:
                g = v if k else ~v
            else:
                g = cd.F
                for g2, x in self.alts(v, pc):
                    if not isinstance(x, Poly):
                        raise Unsupported('switch on %r' % (x,))
                    ty_lo, ty_hi = self.int_range(ty)
                    kk = k
                    if ty_lo < 0 and kk > ty_hi:
                        kk -= (ty_hi - ty_lo + 1)
                    g = g | (g2 & cd.eq(x, P(kk), pc & g2))
            g = g & rest
            rest = rest & ~g
            arms.append((g, bb))
        arms.append((rest, t[3]))
        live = [(g, bb) for g, bb in arms if not (g & pc).is_false()]
        for i, (g, bb) in enumerate(live):
            s2 = st if i == len(live) - 1 else st.copy()
            s2.pc = pc & g
            self.edge(fr, bb, s2)

    def call_term(self, t, fr, st):
        f = self.operand(t[1], fr, st)
        args = [self.operand(a, fr, st) for a in t[2]]
        fr.line = t[5] if len(t) > 5 else fr.line
        dt = self.place_ty(fr.fn, t[3])
        v = self.call(f, args, st, dt, t)
        if v is None or st.pc.is_false() or t[4] is None:
            return
        self.write(t[3], v, fr, st)
        self.edge(fr, t[4], st)

    # ------------------------------------------------------------ calls
    def call(self, f, args, st, ret_ty=None, term=None):
        """result value or None when the call diverges"""
        if isinstance(f, Un):
            outs = []
            pc0 = st.pc
            for g, x in self.alts(f, st.pc):
                s2 = st.copy()
                s2.pc = pc0 & g
                v = self.call(x, args, s2, ret_ty, term)
                if v is not None and not s2.pc.is_false():
                    outs.append((s2, v))
            if not outs:
                st.pc = self.cd.F
                return None
            tot = self.cd.F
            for s, _ in outs:
                tot = tot | s.pc
            val = mkun([(self.cd.simp(s.pc, tot), v) for s, v in outs], self.cd.mgr)
            j = self.join([s for s, _ in outs])
            st.mem, st.pc = j.mem, j.pc
            return val
        if isinstance(f, Agg) and isinstance(f.tag, tuple) and f.tag[0] == 'closure':
            ct = self.prog.types[f.tag[1]]
            fn = self.prog.byid[ct['calls'][0] if ct['calls'][0] is not None else ct['calls'][1]]
            if fn.locals and self.prog.types[fn.locals[1]]['k'] == 'closure':
                return self.call_fn(fn, [f] + list(args), st, ret_ty, term)
            o = self.alloc(st, f, 'tmp')
            return self.call_fn(fn, [Ptr(o)] + list(args), st, ret_ty, term)
        if not isinstance(f, FnV):
            raise Unsupported('call of %r' % (f,))
        if f.inst is None:
            return self.models.call_unresolved(f, args, st, ret_ty, term)
        fn = self.prog.byid.get(f.inst)
        if fn is None:
            raise Unsupported('call of the unknown %s' % f.fd)
        # rust-call ABI: Fn*::call*(closure, (args...))
        if f.fd.startswith('std::ops::Fn') and f.fd.split('::')[-1] in ('call', 'call_mut', 'call_once') \
                and '{closure' in fn.def_ and fn.kind == 'item' and len(args) == 2 and isinstance(args[1], Agg):
            args = [args[0]] + list(args[1].f)
        elif f.fd.startswith('std::ops::Fn') and f.fd.split('::')[-1] in ('call', 'call_mut', 'call_once') \
                and fn.kind == 'item' and len(args) == 2 and isinstance(args[1], Agg) and args[1].tag == 'tuple' \
                and fn.argc == len(args[1].f):
            args = list(args[1].f)
        return self.call_fn(fn, args, st, ret_ty, term)

    def call_fn(self, fn, args, st, ret_ty=None, term=None):
        self.calls += 1
        h = self.hooks.get(fn.id)
        if h is not None:
            r = h(self, fn, args, st)
            if r is not NotImplemented:
                return r
        if fn.kind == 'virtual' and ' as std::ops::Fn' in fn.name and fn.name.split('::')[-1] in ('call', 'call_mut', 'call_once'):
            return self.models.call_dyn(fn, args, st, ret_ty, term)
        if fn.kind == 'virtual':
            return self.call_virtual(fn, args, st, ret_ty, term)
        m = self.fmodel.get(fn.id)
        if m is None:
            m = self.fmodel[fn.id] = self.models.find(fn) or False
        if m:
            r = m(fn, args, st, ret_ty, term)
            if r is not NotImplemented:
                return r
        if self.call_hook is not None:
            r = self.call_hook(self, fn, args, st)
            if r is not NotImplemented:
                return r
        if not fn.blocks:
            raise Unsupported('no model of %s' % fn.name)
        return self.run(fn, args, st)

    def run(self, fn, args, st):
        if len(self.frames) > 60:
            raise Unsupported('recursion too deep in %s' % fn.name)
        if fn.cfg is None:
            fn.cfg = Cfg(fn, self.prog)
        self.called.add(fn.id)
        self.nframe += 1
        fr = Frame(fn, self.nframe)
        if fn.argc != len(args):
            raise Unsupported('%d arguments for %s' % (len(args), fn.name))
        for i, a in enumerate(args):
            st.mem[(fr.fid, i + 1)] = a
        fr.pending[0] = [st.copy()]
        self.frames.append(fr)
        try:
            self.process(fn.cfg.wto, fr)
        finally:
            self.frames.pop()
        if not fr.rets:
            st.pc = self.cd.F
            return None
        j = self.join(fr.rets) if len(fr.rets) > 1 else fr.rets[0]
        v = j.mem.get((fr.fid, 0), UNINIT)
        if v is UNINIT:
            v = UNIT
        for i in range(len(fn.locals)):
            j.mem.pop((fr.fid, i), None)
        st.mem, st.pc = j.mem, j.pc
        return v

    def process(self, wto, fr):
        for e in wto:
            if isinstance(e, tuple):
                self.component(e, fr)
            else:
                self.block(e, fr)

    def block(self, b, fr):
        l = fr.pending.pop(b, None)
        if not l:
            return
        self.exec_block(b, fr, self.join(l, fr, b))

    def snapshot(self, fr, comp):
        return ({b: list(l) for b, l in fr.pending.items()}, len(fr.rets), len(self.panics))

    def rollback(self, fr, snap):
        fr.pending = {b: list(l) for b, l in snap[0].items()}
        del fr.rets[snap[1]:]
        del self.panics[snap[2]:]

    def component(self, e, fr):
        head, body, comp = e
        n = sym = 0
        entry = snap = None
        while True:
            l = fr.pending.pop(head, None)
            if not l:
                break
            st = self.join(l, fr, head)
            if n == 0:
                snap = self.snapshot(fr, comp)
                entry = st.copy()
            before = sum(len(x) for b, x in fr.pending.items() if b not in comp) + len(fr.rets)
            self.exec_block(head, fr, st)
            self.process(body, fr)
            n += 1
            after = sum(len(x) for b, x in fr.pending.items() if b not in comp) + len(fr.rets)
            if fr.pending.get(head) and after > before:
                sym += 1
                if sym == 1 and self.summarise is not None:
                    saved = (fr.pending, list(fr.rets), list(self.panics))
                    self.rollback(fr, snap)
                    if self.summarise(self, e, fr, entry.copy(), snap):
                        return
                    fr.pending, rets, pan = saved
                    fr.rets[:] = rets
                    self.panics[:] = pan
                if sym > MAX_SYMBOLIC:
                    why = self.loop_notes() if self.loop_notes else ''
                    raise Unsupported('loop in %s with an unbounded number of iterations%s' % (fr.fn.name, why))
            if n > MAX_ITER:
                raise Unsupported('loop in %s does not end' % fr.fn.name)

    # ------------------------------------------------------------ virtual calls
    def call_virtual(self, fn, args, st, ret_ty, term):
        recv = args[0]
        if isinstance(recv, Un):
            raise Unsupported('virtual call on several receivers')
        obj, path = (recv.obj, recv.path if isinstance(recv, Ptr) else ())
        if self.virtual_hook is not None:
            r = self.virtual_hook(self, fn, recv, args, st)
            if r is not NotImplemented:
                return r
        ty = self.dynty.get((obj, path))
        if ty is None and isinstance(recv, BoxV):
            ty = recv.dty
        if ty is None:
            raise Unsupported('virtual call on an unknown type: %s' % fn.name)
        meth = fn.name.split('>::')[-1]
        trait = fn.name.split(' as ')[-1].split('>::')[0].split('<')[0]
        tn = self.prog.tn[ty]
        cands = [g for g in self.prog.fns if g.blocks and g.kind == 'item' and g.name.endswith('>::' + meth)
                 and (' as ' + trait) in g.name and self.same_type(g, tn)]
        if len(cands) != 1:
            raise Unsupported('%d implementations of %s for %s' % (len(cands), fn.name, tn))
        return self.call_fn(cands[0], args, st, ret_ty, term)

    def same_type(self, g, tn):
        head = g.name[1:].split(' as ')[0]
        if head.startswith('redox_ecc::'):
            head = head[len('redox_ecc::'):]
        return head == tn
