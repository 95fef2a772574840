"""Abstract values of the analysis."""
from .terms import Poly, P
from .bdd import Bdd


class Unsupported(Exception):
    """the analysis has no abstraction for this construct"""


class V:
    __slots__ = ()


class Uninit(V):
    def __repr__(self):
        return 'uninit'


UNINIT = Uninit()


class Agg(V):
    """struct / tuple / closure"""
    __slots__ = ('tag', 'f', '_h')

    def __init__(self, tag, f):
        self.tag = tag
        self.f = tuple(f)
        self._h = None

    def __eq__(self, o):
        return self is o or (isinstance(o, Agg) and self.tag == o.tag and hash(self) == hash(o) and self.f == o.f)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.tag, self.f))
        return self._h

    def __repr__(self):
        return '%s%r' % (self.tag, self.f)


class EnumV(V):
    """alts: tuple of (guard, variant index, fields)"""
    __slots__ = ('tid', 'alts')

    def __init__(self, tid, alts):
        self.tid = tid
        self.alts = tuple(alts)

    def __eq__(self, o):
        return self is o or (isinstance(o, EnumV) and self.tid == o.tid and self.alts == o.alts)

    def __hash__(self):
        return hash((self.tid, self.alts))

    def __repr__(self):
        return 'enum%s{%s}' % (self.tid, '; '.join('%r => #%d%r' % a for a in self.alts))


class Un(V):
    """guarded union; alts: tuple of (guard, value)"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __eq__(self, o):
        return self is o or (isinstance(o, Un) and self.alts == o.alts)

    def __hash__(self):
        return hash(self.alts)

    def __repr__(self):
        return 'U{%s}' % '; '.join('%r => %r' % a for a in self.alts)


class Ptr(V):
    """pointer to a place; sl = (offset, length) for slices"""
    __slots__ = ('obj', 'path', 'sl')

    def __init__(self, obj, path=(), sl=None):
        self.obj, self.path, self.sl = obj, path, sl

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.path == o.path and self.sl == o.sl

    def __hash__(self):
        return hash((self.obj, self.path, self.sl))

    def __repr__(self):
        return '&%s%s%s' % (self.obj, ''.join('.%s%s' % p for p in self.path),
                            '[%r;%r]' % self.sl if self.sl else '')


class ArcV(V):
    __slots__ = ('obj',)

    def __init__(self, obj):
        self.obj = obj

    def __eq__(self, o):
        return isinstance(o, ArcV) and self.obj == o.obj

    def __hash__(self):
        return hash(('arc', self.obj))

    def __repr__(self):
        return 'Arc(%s)' % (self.obj,)


class BoxV(V):
    """box; dty = concrete type id of the pointee when unsized from it"""
    __slots__ = ('obj', 'dty')

    def __init__(self, obj, dty=None):
        self.obj, self.dty = obj, dty

    def __eq__(self, o):
        return isinstance(o, BoxV) and self.obj == o.obj

    def __hash__(self):
        return hash(('box', self.obj))

    def __repr__(self):
        return 'Box(%s)' % (self.obj,)


class Seq(V):
    """array / vector of known length"""
    __slots__ = ('e', '_h')

    def __init__(self, e):
        self.e = tuple(e)
        self._h = None

    def __eq__(self, o):
        return self is o or (isinstance(o, Seq) and hash(self) == hash(o) and self.e == o.e)

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.e)
        return self._h

    def __repr__(self):
        return '[%s]' % ', '.join(map(repr, self.e))


class FnV(V):
    __slots__ = ('inst', 'fd', 'g')

    def __init__(self, inst, fd, g):
        self.inst, self.fd, self.g = inst, fd, g

    def __eq__(self, o):
        return isinstance(o, FnV) and self.inst == o.inst and self.fd == o.fd

    def __hash__(self):
        return hash((self.inst, self.fd))

    def __repr__(self):
        return 'fn %s' % self.fd


class Str(V):
    """constant string contents"""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, Str) and self.s == o.s

    def __hash__(self):
        return hash(('s', self.s))

    def __repr__(self):
        return repr(self.s)


class SymStr(V):
    """an unknown string (contents)"""
    __slots__ = ('name', 'len')

    def __init__(self, name, len):
        self.name, self.len = name, len

    def __eq__(self, o):
        return isinstance(o, SymStr) and self.name == o.name

    def __hash__(self):
        return hash(('ss', self.name))

    def __repr__(self):
        return 'str:%s' % self.name


class IterV(V):
    """iterator state; kind and components"""
    __slots__ = ('kind', 'a')

    def __init__(self, kind, *a):
        self.kind, self.a = kind, tuple(a)

    def __eq__(self, o):
        return isinstance(o, IterV) and self.kind == o.kind and self.a == o.a

    def __hash__(self):
        return hash((self.kind, self.a))

    def __repr__(self):
        return 'iter:%s%r' % (self.kind, self.a)


class Opq(V):
    """opaque value: an uninterpreted constructor applied to values"""
    __slots__ = ('name', 'a')

    def __init__(self, name, *a):
        self.name, self.a = name, tuple(a)

    def __eq__(self, o):
        return isinstance(o, Opq) and self.name == o.name and self.a == o.a

    def __hash__(self):
        return hash((self.name, self.a))

    def __repr__(self):
        return '%s(%s)' % (self.name, ', '.join(map(repr, self.a)))


class Bytes(V):
    """byte string with symbolic pieces (see bytesdom)"""
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __eq__(self, o):
        return isinstance(o, Bytes) and self.segs == o.segs

    def __hash__(self):
        return hash(self.segs)

    def __repr__(self):
        return 'bytes<%s>' % ' ++ '.join(map(repr, self.segs))


class StrV(V):
    """string contents as pieces: literal str | ('num', name, radix) numeral digits | ('opq', name)
    | ('disp', value)"""
    __slots__ = ('p',)

    def __init__(self, pieces):
        out = []
        for x in pieces:
            if isinstance(x, str):
                if not x:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] = out[-1] + x
                    continue
            out.append(x)
        self.p = tuple(out)

    def __eq__(self, o):
        return isinstance(o, StrV) and self.p == o.p

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return 'str<%s>' % '+'.join(map(repr, self.p))


def pieces(v):
    if isinstance(v, Str):
        return (v.s,) if v.s else ()
    if isinstance(v, StrV):
        return v.p
    raise Unsupported('string expected, got %r' % (v,))


def mkstr(ps):
    s = StrV(ps)
    if not s.p:
        return Str('')
    if len(s.p) == 1 and isinstance(s.p[0], str):
        return Str(s.p[0])
    return s


UNIT = Agg('tuple', ())


def mkun(alts, m):
    """union of guarded alternatives, merged as far as the shapes allow"""
    flat = []
    for g, v in alts:
        if g.is_false():
            continue
        if isinstance(v, Un):
            for g2, v2 in v.alts:
                gg = g & g2
                if not gg.is_false():
                    flat.append((gg, v2))
        elif v is UNINIT:
            continue
        else:
            flat.append((g, v))
    if not flat:
        return UNINIT
    groups = {}
    order = []
    for g, v in flat:
        if v in groups:
            groups[v] = groups[v] | g
        else:
            groups[v] = g
            order.append(v)
    if len(order) == 1:
        return order[0]
    v0 = order[0]
    if all(isinstance(v, Bdd) for v in order):
        r = m.F
        for v in order:
            r = r | (groups[v] & v)
        return r
    if isinstance(v0, Agg) and all(isinstance(v, Agg) and v.tag == v0.tag and len(v.f) == len(v0.f) for v in order):
        return Agg(v0.tag, [mkun([(groups[v], v.f[i]) for v in order], m) for i in range(len(v0.f))])
    if isinstance(v0, EnumV) and all(isinstance(v, EnumV) and v.tid == v0.tid for v in order):
        by = {}
        for v in order:
            for g, vi, f in v.alts:
                gg = g & groups[v]
                if not gg.is_false():
                    by.setdefault(vi, []).append((gg, f))
        alts = []
        for vi in sorted(by):
            items = by[vi]
            gor = m.F
            for g, _ in items:
                gor = gor | g
            n = len(items[0][1])
            alts.append((gor, vi, tuple(mkun([(g, f[i]) for g, f in items], m) for i in range(n))))
        return EnumV(v0.tid, alts)
    if isinstance(v0, Seq) and all(isinstance(v, Seq) and len(v.e) == len(v0.e) for v in order):
        return Seq([mkun([(groups[v], v.e[i]) for v in order], m) for i in range(len(v0.e))])
    if isinstance(v0, IterV) and all(isinstance(v, IterV) and v.kind == v0.kind and len(v.a) == len(v0.a) for v in order):
        return IterV(v0.kind, *[mkun([(groups[v], v.a[i]) for v in order], m) if isinstance(v0.a[i], (V, Poly, Bdd))
                                else v0.a[i] for i in range(len(v0.a))])
    if m.residues is not None and all(isinstance(v, Poly) for v in order):
        r = m.residues([(groups[v], v) for v in order])
        if r is not None:
            return r
        if len(order) > 2:
            alts = m.reductions([(groups[v], v) for v in order])
            return alts[0][1] if len(alts) == 1 else Un(alts)
    return Un([(groups[v], v) for v in order])
