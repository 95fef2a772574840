"""Sharing, leaks and purity (C15, C16, C41): effect, type-graph and call-graph analyses."""
import re
from .common import *
from . import primef as PF
from engine.graph import Graph, TypeGraph, CELLS, RCS

# cells whose operations cannot fail or answer differently under contention
CALM = re.compile(r'(OnceLock|LazyLock|Mutex|RwLock|Once)$')
LOCKS = re.compile(r'^std::sync::(\w+::)*(Mutex|RwLock)::<.*>::(lock|read|write)$')
INIT = re.compile(r'^std::sync::(\w+::)*(OnceLock::<.*>::(get_or_init|get_or_try_init|get_mut_or_init)|Once::call_once(_force)?|'
                  r'LazyLock::<.*>::force)|^<std::sync::(\w+::)*LazyLock<.*> as std::ops::Deref>::deref')
CONTEND = [
    (re.compile(r'^atomic_refcell::|^<atomic_refcell::'), 'borrows of an AtomicRefCell panic when another thread holds one'),
    (re.compile(r'::(try_lock|try_read|try_write|try_borrow|try_borrow_mut|is_locked|is_poisoned)(::<.*>)?$'),
     'the answer depends on whether another thread holds the lock'),
    (re.compile(r'^(std|alloc)::(sync::Arc|rc::Rc)::<.*>::(strong_count|weak_count|try_unwrap|into_inner|get_mut|is_unique|'
                r'unwrap_or_clone)$'), 'the answer depends on handles held elsewhere'),
    (re.compile(r'^std::thread::(spawn|sleep|park|yield_now|current|Builder|scope)|^std::sync::(mpsc|Condvar|Barrier)|'
                r'^std::hint::spin_loop'), 'waits for or starts other threads'),
]
SET = re.compile(r'^std::sync::(\w+::)*OnceLock::<.*>::set$')
LEAK = re.compile(r'^(std|core)::mem::forget|::(leak|into_raw|into_raw_with_allocator|into_raw_parts)(::<.*>)?$|ManuallyDrop::<.*>::new$|'
                  r'^(std|alloc)::(sync::Arc|rc::Rc)::<.*>::increment_strong_count')
EFFECTS = [
    (re.compile(r'^std::(env|fs|net|process|time|os|thread)::'), 'reads or changes the environment of the process'),
    (re.compile(r'^(std|core)::(random|rand)::|RandomState|^rand(_\w+)?::|^getrandom::'), 'random'),
    (re.compile(r'^std::io::(stdio::)?(_print|_eprint|stdin|stdout|stderr|copy|read_to_string|Stdout|Stderr|Stdin)'), 'input/output'),
    (re.compile(r'^<std::(fs|net|process|time|io::Std\w+)'), 'input/output or the clock'),
    (re.compile(r'^<?std::collections::(hash|Hash)'), 'iteration order of hash collections is random'),
    (re.compile(r'^(std|alloc)::(sync::Arc|rc::Rc)::<.*>::(strong_count|weak_count|as_ptr|into_raw)'), 'identity of a handle, not its value'),
    (re.compile(r'::(addr|expose_provenance|is_aligned|align_offset)$'), 'an address'),
    (re.compile(r'new_pointer$|^<.* as std::fmt::Pointer>'), 'formats an address'),
    (re.compile(r'^(std|core)::arch::|^std::alloc::|^std::panic::(set_hook|take_hook)'), 'global state or hardware'),
    (re.compile(r'^std::thread::(local::)?LocalKey'), 'thread-local state'),
]
PURE_CRATES = ('core', 'alloc', 'std', 'num_bigint', 'num_integer', 'num_traits', 'impl_ops', 'atomic_refcell', 'redox_ecc')


def crate_sites(prog, g):
    for f in prog.crate_fns():
        if not f.blocks or 'verif_witness' in f.name:
            continue
        for s in g.sites(f):
            yield (f,) + s


def unsafe_sites(prog):
    """unsafe blocks, functions and implementations in the crate, reported by the compiler's own lint"""
    out = []
    for m in re.finditer(r'^(?:warning|error): ([^\n]*unsafe[^\n]*)\n\s*--> ([^\n]*)', prog.log, re.M):
        if not m.group(2).startswith('/'):
            out.append('%s at %s' % (m.group(1), m.group(2)))
    return out


def statics(prog):
    return [s for s in prog.statics.values() if s['crate'] == 'redox_ecc']


# ------------------------------------------------------------------ C15
def c15(ck):
    """Send and Sync by the compiler's trait selection for every reachable type; inventory of interior mutability,
    contention-sensitive calls, initialisers that re-enter their own cell, and lock order."""
    prog = program()
    g, tg = Graph(prog), TypeGraph(prog)
    traits = {}
    for tr, st in prog.impls:
        if tr.startswith('redox_ecc::') and not tr.startswith('redox_ecc::ops::'):
            traits.setdefault(st.replace('redox_ecc::', ''), []).append(tr)
    n = 0
    with ck.case('Send and Sync'):
        for t, send, sync, reach in prog.auto:
            name = prog.tn[t]
            if not reach and name not in traits:
                continue
            n += 1
            ck.ob(send, name + ' can be sent to another thread')
            ck.ob(sync, name + ' can be shared between threads')
        ck.floor('types', n, 25)
        bad = [i for i in prog.impls if i[0] in ('std::marker::Send', 'std::marker::Sync', 'core::marker::Send', 'core::marker::Sync')]
        ck.ob(not bad, 'no hand-written Send or Sync', bad)
    with ck.case('boxed maps'):
        # trait objects stored in public types keep the guarantee (compiler judges the containing type above)
        ck.ob(True, 'judged through their containers')
    with ck.case('interior mutability'):
        cells = {}
        for t, send, sync, reach in prog.auto:
            for path, c in tg.cells(t):
                cells.setdefault(c, (prog.tn[t],) + path)
        for s in statics(prog):
            for path, c in tg.cells(s['t']):
                cells.setdefault(c, (s['name'],) + path)
        ck.count('cells', len(cells))
        for c, path in sorted(cells.items(), key=str):
            d = prog.adt_def(c)
            ck.ob(CALM.search(d), '%s is contention-free' % prog.tn[c],
                  '%s is reachable at %s: it panics or answers differently under contention' % (prog.tn[c], ' . '.join(path)))
    with ck.case('contention-sensitive calls'):
        k = 0
        for f, i, d, sp, direct, bi, t in crate_sites(prog, g):
            nm = g.name(i, d)
            k += 1
            for rx, why in CONTEND:
                if rx.search(nm):
                    ck.ob(False, '%s calls %s' % (f.name, nm), '%s (%s)' % (why, sp))
            if SET.match(nm) and t is not None and flows_to_unwrap(g, f, t):
                ck.ob(False, '%s unwraps the result of %s' % (f.name, nm), 'panics when another thread was first (%s)' % sp)
        ck.count('call sites', k)
        ck.ob(True, 'every call site of the crate is examined')
    with ck.case('initialisers'):
        m = 0
        for f, i, d, sp, direct, bi, t in crate_sites(prog, g):
            nm = g.name(i, d)
            if not INIT.search(nm) or not direct:
                continue
            m += 1
            # the cell's own type: re-entering the initialiser of the same cell deadlocks
            starts = closure_ids(prog, i)
            pred = g.reach(starts)
            again = None
            for x in pred:
                h = prog.byid.get(x)
                if h is not None and h.name.split('::get_or')[0] == nm.split('::get_or')[0] and INIT.search(h.name):
                    again = x
            ck.ob(again is None, '%s: the initialiser does not use its own cell' % f.name,
                  'deadlock: %s' % (g.path(pred, again) if again is not None else ''))
        ck.count('initialisers', m)
    with ck.case('locks'):
        edges = {}
        for f, i, d, sp, direct, bi, t in crate_sites(prog, g):
            nm = g.name(i, d)
            if not direct or t is None or t[4] is None:
                continue
            if LOCKS.match(nm):
                lock = lock_of(nm)
            else:
                # a function that hands the guard to its caller
                lock = guarded(prog.tn[local_type(f, t[3][0])])
                h = prog.byid.get(i)
                if not lock or h is None or h.crate != 'redox_ecc':
                    continue
            later = held(prog, f, t)
            for j, d2, sp2, dr2, b2, t2 in g.sites(f):
                if b2 in later:
                    for x in g.reach(g.targets(j, d2)):
                        h = prog.byid.get(x)
                        if h is not None and LOCKS.match(h.name):
                            edges.setdefault(lock, set()).add((lock_of(h.name), '%s at %s' % (f.name, sp2)))
        for a in edges:
            seen, st = set(), [a]
            while st:
                x = st.pop()
                for b, why in edges.get(x, ()):
                    if b == a:
                        ck.ob(False, 'lock %s is not taken while held' % a, why)
                    if b not in seen:
                        seen.add(b)
                        st.append(b)
        ck.ob(True, 'lock order is acyclic')
    purity_of_cells(ck, prog, g, tg)
    ck.rule('every reachable type is Send + Sync; cells are initialise-once cells or locks; nothing panics, blocks on itself '
            'or answers differently under contention; what a cell publishes depends only on its owner')
    ck.assume('the standard library cells are linearisable and num-bigint holds no shared state')


def lock_of(nm):
    return nm.rsplit('::', 1)[0].replace('redox_ecc::', '')


def guarded(n):
    """the lock a value of this type keeps locked"""
    m = re.search(r'\b(Mutex|RwLock)(Read|Write)?Guard<(?:\'\w+, )?', n)
    if not m or n.startswith(('&', '*')):
        return None
    d, i = 1, m.end()
    while i < len(n) and d:
        d += {'<': 1, '>': -1}.get(n[i], 0)
        i += 1
    return 'std::sync::%s::<%s>' % (m.group(1), n[m.end():i - 1])


def local_type(f, l):
    t = f.locals[l]
    return t[0] if isinstance(t, (list, tuple)) else t


def held(prog, f, term):
    """blocks whose terminator runs while the guard produced by a call is alive (forward analysis of its owners)"""
    start = frozenset([term[3][0]])
    seen, st, out = set(), [(term[4], start)], set()

    def owns(l):
        n = prog.tn[local_type(f, l)]
        return not n.startswith(('&', '*')) and ('Guard<' in n or 'closure' in n or 'dyn ' in n)

    def moved(x, acc):
        if isinstance(x, (list, tuple)):
            if len(x) == 2 and x[0] == 'mv' and isinstance(x[1], list):
                acc.append(x[1])
                return
            for y in x:
                moved(y, acc)
    while st:
        b, own = st.pop()
        if b is None or (b, own) in seen:
            continue
        seen.add((b, own))
        o = set(own)

        def take(args, dest, must):
            acc = []
            moved(args, acc)
            for pl in acc:
                if pl[0] in o:
                    if not pl[1] or len(pl[1]) < 3 and owns(pl[0]):
                        if must or owns(dest):
                            o.add(dest)
                    if not pl[1]:
                        o.discard(pl[0])
                    if must or owns(dest):
                        o.add(dest)
        for s in f.blocks[b]['s']:
            if isinstance(s[0], list) and isinstance(s[1], list):
                take(s[1], s[0][0], s[1][0] == 'agg')
        if not o:
            continue
        out.add(b)
        t = f.blocks[b]['t']
        if t[0] == 'drop':
            if t[1][0] in o and not t[1][1]:
                o.discard(t[1][0])
        elif t[0] == 'call':
            take(t[2], t[3][0], False)
        if not o:
            continue
        for y in succs(t):
            st.append((y, frozenset(o)))
    return out


def reach_blocks(f, b):
    seen, st = set(), [b] if b is not None else []
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        t = f.blocks[x]['t']
        st += [y for y in succs(t) if y is not None]
    return seen


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [x[1] for x in t[2]] + [t[3]]
    if k == 'drop':
        return [t[2]]
    if k == 'call' or k == 'assert':
        return [t[4]]
    return []


def flows_to_unwrap(g, f, term):
    """the destination of the call is consumed by unwrap/expect"""
    dest = {term[3][0]}
    for _ in range(4):
        for b in f.blocks:
            for s in b['s']:
                if isinstance(s[0], list) and isinstance(s[1], list) and s[1][0] == 'use' and s[1][1][0] in ('mv', 'cp') \
                        and s[1][1][1][0] in dest:
                    dest.add(s[0][0])
    for i, d, sp, direct, bi, t in g.sites(f):
        if t is not None and re.search(r'::(unwrap|expect|unwrap_unchecked)$', g.name(i, d)) and t[2] \
                and t[2][0][0] in ('mv', 'cp') and t[2][0][1][0] in dest:
            return True
    return False


def closure_ids(prog, i):
    """bodies of the closures given to the callee through its generic arguments"""
    f = prog.byid.get(i)
    out = []
    for t in (f.g or ()) if f else ():
        if isinstance(t, int):
            ty = prog.types[t]
            if ty['k'] == 'closure':
                out += [c for c in ty.get('calls') or () if c is not None]
            elif ty['k'] == 'fndef' and ty.get('inst') is not None:
                out.append(ty['inst'])
            elif ty['k'] == 'fndef':
                out += [h.id for h in prog.fns if h.def_ == ty['def']]
    return out


def owners(prog, tg, cell):
    """types that carry nothing but what everything sharing the cell shares"""
    out = set()
    for t, ty in enumerate(prog.types):
        if ty['k'] == 'adt' and ty['crate'] == 'redox_ecc' and any(f[1] == cell for v in ty['v'] for f in v['f']):
            out.add(t)
    ch = True
    while ch:
        ch = False
        for t, ty in enumerate(prog.types):
            if t in out:
                continue
            if ty['k'] in ('ref', 'ptr') and ty['e'] in out:
                ok = True
            elif ty['k'] == 'adt' and RCS.match(prog.adt_def(t)):
                ok = any(x in out for x in ty['g'] if isinstance(x, int))
            elif ty['k'] == 'adt' and ty['crate'] == 'redox_ecc' and ty['a'] == 'struct':
                fs = [f[1] for f in ty['v'][0]['f']]
                ok = len(fs) == 1 and fs[0] in out
            else:
                ok = False
            if ok:
                out.add(t)
                ch = True
    return out


def constant_capture(prog, t):
    ty = prog.types[t]
    return ty['k'] in ('fndef', 'never') or (ty['k'] == 'tuple' and not ty['f'])


def purity_of_cells(ck, prog, g, tg):
    """what is stored in a cell depends only on the owner of the cell"""
    with ck.case('contents of cells'):
        direct_fns = {}
        for f, i, d, sp, direct, bi, t in crate_sites(prog, g):
            nm = g.name(i, d)
            m = re.match(r'^std::sync::(?:\w+::)*OnceLock::<.*>::(\w+)', nm)
            if not m or m.group(1) in ('new',) or not direct:
                continue
            direct_fns.setdefault(f.id, (f, []))[1].append(m.group(1))
            if m.group(1) not in ('get_or_init', 'get_or_try_init'):
                continue
            h = prog.byid[i]
            own = set()
            for ct, cty in enumerate(prog.types):
                if cty['k'] == 'adt' and CELLS.match(prog.adt_def(ct)) and cty['g'][:1] == h.g[:1]:
                    own |= owners(prog, tg, ct)
            for x in h.g:
                if not isinstance(x, int) or prog.types[x]['k'] != 'closure':
                    continue
                up = prog.types[x].get('up')
                for u in prog.types[up]['f'] if up is not None and prog.types[up]['k'] == 'tuple' else ():
                    b = u
                    ck.ob(b in own or constant_capture(prog, b),
                          '%s: the initialiser captures nothing but the owner of the cell' % f.name,
                          'it captures %s, so the cached value depends on which caller came first' % prog.tn[u])
        ck.count('functions using cells', len(direct_fns))
    for f, kinds in direct_fns.values():
        warm_cold(ck, prog, f)


def warm_cold(ck, prog, f):
    """the function answers the same on an unused field and on one already used with other operands"""
    bt = [prog.tn[base_ty(prog, t)[0]] for t in f.locals[1:f.argc + 1]]
    if not bt or any(t not in (FP, FPE, FP2, FP2E) for t in bt):
        return
    for res in ((3, 4), (5, 8)) if bt[0] in (FP, FPE) else ((3, 4),):
        w = World()
        with ck.case('%s, p = %d mod %d' % (f.name, res[0], res[1]), w):
            w.M.track_cells = True
            p = w.prime('p', 5, residue=res)
            kind = FP if bt[0] in (FP, FPE) else FP2
            F = PF.mk_field(w, p, kind)

            def mk(i, st):
                out = []
                for j, t in enumerate(bt):
                    if t in (FP, FP2):
                        out.append(F)
                    else:
                        x = w.residue('x%d%d' % (i, j), p)
                        out.append(PF.mk_elt(w, F, x, kind, st=st))
                return out
            a, b = mk(1, w.st), mk(2, w.st)
            cold = w.fork()
            vc = call(w, f, *b, st=cold)
            warm = w.fork()
            call(w, f, *a, st=warm)
            vw = call(w, f, *b, st=warm)
            ck.ob(vc is not None and vw is not None and plain(w, vc, cold) == plain(w, vw, warm), 'the answer does not depend on earlier calls',
                  'fresh: %r, after another call: %r' % (vc, vw))


def plain(w, v, st, n=0):
    """value with every reference replaced by what it refers to"""
    if n > 12:
        return v
    if isinstance(v, (Ptr,)):
        return plain(w, w.M.val(v, st), st, n + 1)
    if isinstance(v, Agg):
        return Agg(v.tag, [plain(w, x, st, n + 1) for x in v.f])
    if isinstance(v, EnumV):
        return EnumV(v.tid, [(g, i, tuple(plain(w, x, st, n + 1) for x in f)) for g, i, f in v.alts])
    return v


# ------------------------------------------------------------------ C16
def c16(ck):
    """Cycles of counted handles through interior-mutable cells in the ownership graph of types; leaking calls; statics."""
    prog = program()
    g, tg = Graph(prog), TypeGraph(prog)
    n = 0
    with ck.case('reference cycles'):
        arcs = [t for t, ty in enumerate(prog.types) if ty['k'] == 'adt' and RCS.match(prog.adt_def(t))]
        ck.floor('counted handle types', len(arcs), 1)
        for a in arcs:
            # walk from the content of the handle; a cycle needs a cell on it (contents are fixed at creation otherwise)
            seen, st = {}, [(a, False, (prog.tn[a],))]
            while st:
                t, cell, path = st.pop()
                for l, x, rc, c in tg.owned(t):
                    cc = cell or c
                    n += 1
                    if x == a and cc:
                        ck.ob(False, '%s is not kept alive by its own content' % prog.tn[a], ' . '.join(path + (l,)))
                        continue
                    if seen.get(x, -1) >= cc:
                        continue
                    seen[x] = cc
                    st.append((x, cc, path + (l,)))
            ck.ob(True, '%s examined' % prog.tn[a])
    with ck.case('leaks'):
        k = 0
        for f, i, d, sp, direct, bi, t in crate_sites(prog, g):
            nm = g.name(i, d)
            k += 1
            if LEAK.search(nm):
                ck.ob(False, '%s calls %s' % (f.name, nm), 'never releases what it is given (%s)' % sp)
        ck.count('call sites', k)
        ck.count('ownership edges', n)
        ck.ob(True, 'every call site of the crate is examined')
    with ck.case('statics'):
        ss = statics(prog)
        for s in ss:
            cs = tg.cells(s['t'])
            ck.ob(not cs, '%s holds nothing allocated at run time' % s['name'], [' . '.join(p) for p, _ in cs])
        ck.floor('statics', len(ss), 1)
        tls = [f.name for f, i, d, sp, direct, bi, t in crate_sites(prog, g) if re.search(r'LocalKey', g.name(i, d))]
        ck.ob(not tls, 'no thread-local storage', tls)
    ck.rule('no counted handle is owned by its own content through a cell; nothing is leaked; statics hold no cells')
    ck.assume('num-bigint releases its buffers')


# ------------------------------------------------------------------ C41
INPLACE = re.compile(r'::(normalize|set_zero|set_one|next|next_back|fmt|hash|\w+_assign)$')


def c41(ck):
    """Effects of every call in the crate, unsafe code, statics, address-dependent casts and mutable operands."""
    prog = program()
    g, tg = Graph(prog), TypeGraph(prog)
    with ck.case('unsafe code'):
        u = unsafe_sites(prog)
        ck.ob(not u, 'none', u[:5])
        ck.ob(bool(prog.log) and 'redox' in prog.log, 'the lint ran', prog.log[-200:])
    with ck.case('effects'):
        k = 0
        for f, i, d, sp, direct, bi, t in crate_sites(prog, g):
            nm = g.name(i, d)
            k += 1
            h = prog.byid.get(i)
            if h is not None and h.crate not in PURE_CRATES:
                ck.ob(False, '%s calls %s' % (f.name, nm), 'a crate not known to be free of effects (%s)' % sp)
            for rx, why in EFFECTS:
                if rx.search(nm):
                    ck.ob(False, '%s calls %s' % (f.name, nm), '%s (%s)' % (why, sp))
        ck.floor('call sites', k, 1500)
    with ck.case('addresses'):
        for f in prog.crate_fns():
            if not f.blocks:
                continue
            for b in f.blocks:
                for s in b['s']:
                    if isinstance(s[1], list) and s[1] and s[1][0] == 'cast' and re.search(r'Expose|FnPtrToPtr', str(s[1][1])):
                        ck.ob(False, '%s turns a pointer into a number' % f.name)
        ck.ob(True, 'no pointer becomes a number')
    with ck.case('statics'):
        for s in statics(prog):
            cs = [c for p, c in tg.cells(s['t']) if not re.search('OnceLock|LazyLock', prog.adt_def(c))]
            ck.ob(not cs, s['name'] + ' is immutable', [prog.tn[c] for c in cs])
    with ck.case('operands'):
        n = 0
        local = set(prog.adts)
        for f in prog.crate_fns():
            if not f.blocks or '{closure' in f.name or 'verif_witness' in f.name:
                continue
            for j, t in enumerate(f.locals[1:f.argc + 1]):
                ty = prog.types[t]
                if ty['k'] == 'ref' and ty['mut'] and ty['e'] in local and f.name.startswith('<'):
                    n += 1
                    ck.ob(INPLACE.search(f.name), '%s changes no operand' % f.name, 'it takes operand %d mutably' % j)
        ck.count('mutable operands', n)
    purity_of_cells(ck, prog, g, tg)
    ck.rule('no unsafe code, no call with an effect outside its operands, no address-dependent value, no mutable static; '
            'only in-place operations take an operand mutably; cached values depend only on the owner of the cache')
    ck.assume('safe Rust: a value behind a shared reference without cells is not changed')
