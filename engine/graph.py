"""Call graph and type graph over the dump."""
import re


def const_fns(o, out):
    if isinstance(o, dict):
        if 'fd' in o:
            out.append((o.get('inst'), o['fd']))
        elif 'fn' in o:
            out.append((o['fn'], o.get('name', '')))
        for v in o.values():
            if isinstance(v, (dict, list)):
                const_fns(v, out)
    elif isinstance(o, list):
        for v in o:
            if isinstance(v, (dict, list)):
                const_fns(v, out)


class Graph:
    def __init__(self, prog):
        self.prog = prog
        self._c = {}

    def sites(self, f):
        """[(callee id or None, definition name, span, is direct call, block, call terminator)] of one function"""
        r = self._c.get(f.id)
        if r is not None:
            return r
        r = []
        if f.blocks:
            for bi, b in enumerate(f.blocks):
                for s in b['s']:
                    l = []
                    const_fns(s, l)
                    for i, d in l:
                        r.append((i, d, f.span, False, bi, None))
                    if isinstance(s, list) and len(s) > 1 and isinstance(s[1], list) and s[1][:1] == ['agg'] \
                            and s[1][1][0] == 'closure':
                        t = self.prog.types[s[1][1][1]]
                        for c in t.get('calls') or ():
                            if c is not None:
                                r.append((c, t['def'], f.span, False, bi, None))
                t = b['t']
                if t[0] == 'call':
                    l = []
                    const_fns(t[1], l)
                    for i, d in l:
                        r.append((i, d, t[5], True, bi, t))
                    if not l:
                        r.append((None, '<indirect>', t[5], True, bi, t))
                    l = []
                    const_fns(t[2], l)
                    for i, d in l:
                        r.append((i, d, t[5], False, bi, None))
        self._c[f.id] = r
        return r

    def name(self, i, d):
        if i is not None and i in self.prog.byid:
            return self.prog.byid[i].name
        from .dump import norm
        return norm(d)

    def reach(self, roots):
        """functions reachable from the roots (ids) with bodies, with a witness predecessor"""
        pred = {}
        st = []
        for r in roots:
            if r not in pred:
                pred[r] = None
                st.append(r)
        while st:
            x = st.pop()
            f = self.prog.byid.get(x)
            if f is None or not f.blocks:
                continue
            for i, d, sp, direct, bi, t in self.sites(f):
                for y in self.targets(i, d):
                    if y not in pred:
                        pred[y] = (x, sp)
                        st.append(y)
        return pred

    def targets(self, i, d):
        if i is None:
            return []
        f = self.prog.byid.get(i)
        if f is not None and f.kind == 'virtual':
            m = f.name.split('::')[-1]
            # any implementation of the method in the crate
            return [g.id for g in self.prog.crate_fns() if g.blocks and g.name.endswith('>::' + m)]
        return [i]

    def path(self, pred, x):
        out = []
        while x is not None:
            f = self.prog.byid.get(x)
            p = pred.get(x)
            out.append((f.name if f else str(x)) + (' (called at %s)' % p[1] if p else ''))
            x = p[0] if p else None
        return ' <- '.join(out)


# ------------------------------------------------------------------ type graph
CELLS = re.compile(r'^(std|core)::(cell::(Cell|RefCell|UnsafeCell|OnceCell|LazyCell)|sync::(\w+::)*(OnceLock|LazyLock|Mutex|RwLock|Once|'
                   r'Condvar|atomic::Atomic\w*|Exclusive|ReentrantLock)|sync::atomic::\w+)$|^atomic_refcell::AtomicRefCell$')
RCS = re.compile(r'^(std|alloc)::(sync::Arc|rc::Rc)$')
WEAK = re.compile(r'^(std|alloc)::(sync|rc)::Weak$')


class TypeGraph:
    def __init__(self, prog):
        self.prog = prog

    def owned(self, t):
        """[(label, type, through a counted handle, through a cell)] directly owned by a value of type t"""
        p = self.prog
        ty = p.types[t]
        k = ty['k']
        if k == 'adt':
            d = p.adt_def(t)
            if WEAK.match(d):
                return []
            rc, cell = bool(RCS.match(d)), bool(CELLS.match(d))
            if ty['crate'] == 'redox_ecc':
                return [('%s.%s' % (p.tn[t], f[0]), f[1], False, False) for v in ty['v'] for f in v['f']]
            return [('%s<..>' % d, x, rc, cell) for x in ty['g'] if isinstance(x, int)]
        if k in ('array', 'slice'):
            return [('[]', ty['e'], False, False)]
        if k == 'tuple':
            return [('(..)', x, False, False) for x in ty['f']]
        if k == 'closure' and ty.get('up') is not None:
            return [('captures', ty['up'], False, False)]
        if k == 'dyn':
            return [('dyn', x, False, False) for x in self.implementors(ty['traits'])]
        return []

    def implementors(self, traits):
        p = self.prog
        out = []
        for a in p.adts:
            for tr, st in p.impls:
                if tr in traits and st in (p.tn[a], 'redox_ecc::' + p.tn[a]):
                    out.append(a)
        return out

    def deps(self, t):
        return self.owned(t)

    def cells(self, t, seen=None, path=()):
        """interior-mutable components owned by t: [(path, cell type)]"""
        seen = set() if seen is None else seen
        if t in seen:
            return []
        seen.add(t)
        out = []
        p = self.prog
        if p.types[t]['k'] == 'adt' and CELLS.match(p.adt_def(t)):
            out.append((path, t))
        for l, x, rc, cell in self.owned(t):
            out += self.cells(x, seen, path + (l,))
        return out
