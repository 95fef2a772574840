"""Byte strings with symbolic pieces.

segments
  ('b', byte)            one byte (a term in 0..255)
  ('rep', byte, len)     len copies of the byte
  ('be', n, len)         the integer 0 <= n < 256^len, big-endian, on len bytes
  ('le', n, len)         little-endian
  ('v', name, off, len)  len bytes of the unknown string `name` from offset off
  ('vr', name, off, len) the same, reversed
Lengths and offsets are terms.
"""
from . import terms as T
from . import theory
from .terms import Poly, P, ZERO, ONE
from .values import *
from .values import Unsupported


def seg_len(s):
    return ONE if s[0] == 'b' else s[-1]


def length(b):
    n = ZERO
    for s in b.segs:
        n = n + seg_len(s)
    return n


def pow2(e):
    c = e.const()
    if c is not None:
        return P(2 ** int(c))
    c = e.d.get((), 0)
    if type(c) is int and c > 0:
        return pow2(e - c).scale(2 ** c)
    return P(T.C.gen('pow2', (e,), 1, None))


def shift(v, nbytes):
    c = nbytes.const()
    if c is not None:
        return v.scale(256 ** int(c))
    return v * pow2(nbytes.scale(8)) if v.d else v


def cut(n, L):
    """n lacks the byte at L: the remainder of a split"""
    return any(T.C.gens[g].kind == 'byteof' and T.C.gens[g].args[1] == L and not T.depends(T.C.gens[g].args[0], {g})
               and n + shift(P(T.C.gens[g]), L) == T.C.gens[g].args[0] for g in n.gens())


def normal(segs):
    out = []
    for s in segs:
        if s[0] != 'b' and s[-1].const() == 0:
            continue
        if s[0] == 'rep' and s[2].const() is not None and s[2].const() <= 4:
            for _ in range(int(s[2].const())):
                out.append(('b', s[1]))
            continue
        out.append(s)
    ch = True
    while ch:
        ch = False
        for i in range(len(out) - 1):
            a, b = out[i], out[i + 1]
            za = (a[0] == 'rep' and a[1].const() == 0) or (a[0] == 'b' and a[1].const() == 0)
            zb = (b[0] == 'rep' and b[1].const() == 0) or (b[0] == 'b' and b[1].const() == 0)
            r = None
            if za and b[0] == 'be':
                r = ('be', b[1], b[2] + seg_len(a))
            elif zb and a[0] == 'le':
                r = ('le', a[1], a[2] + seg_len(b))
            elif a[0] == 'rep' and b[0] == 'rep' and a[1] == b[1]:
                r = ('rep', a[1], a[2] + b[2])
            elif a[0] == 'v' and b[0] == 'v' and a[1] == b[1] and a[2] + a[3] == b[2]:
                r = ('v', a[1], a[2], a[3] + b[3])
            elif a[0] == 'vr' and b[0] == 'vr' and a[1] == b[1] and b[2] + b[3] == a[2]:
                r = ('vr', a[1], b[2], a[3] + b[3])
            elif a[0] == 'le' and b[0] == 'b' and cut(a[1], a[2]):
                r = ('le', a[1] + shift(b[1], a[2]), a[2] + 1)
            elif a[0] == 'b' and b[0] == 'be' and cut(b[1], b[2]):
                r = ('be', b[1] + shift(a[1], b[2]), b[2] + 1)
            if r is not None:
                out[i:i + 2] = [r]
                ch = True
                break
    return Bytes(out)


def reverse(b):
    out = []
    for s in reversed(b.segs):
        if s[0] == 'be':
            out.append(('le',) + s[1:])
        elif s[0] == 'le':
            out.append(('be',) + s[1:])
        elif s[0] == 'v':
            out.append(('vr',) + s[1:])
        elif s[0] == 'vr':
            out.append(('v',) + s[1:])
        else:
            out.append(s)
    return normal(out)


def of_seq(s):
    return normal([('b', x) for x in s.e])


def as_bytes(v):
    if isinstance(v, Bytes):
        return v
    if isinstance(v, Seq):
        return of_seq(v)
    raise Unsupported('byte string expected, got %r' % (v,))


class Dom:
    """operations that need the conditions in force"""

    def __init__(self, interp):
        self.I = interp
        self.cd = interp.cd

    def eqz(self, p, pc):
        p = P(p)
        if p.const() is not None:
            return p.const() == 0
        return self.cd.eq(p, ZERO, pc).is_true() or (pc & ~self.cd.eq(p, ZERO, pc)).is_false()

    def geq(self, p, pc):
        p = P(p)
        if p.const() is not None:
            return p.const() >= 0
        g = self.cd.ge(p, pc)
        return g.is_true() or (pc & ~g).is_false()

    # integers rendered minimally
    def nbytes(self, n, be=True):
        c = n.const()
        if c is not None:
            return P(max(1, (int(c).bit_length() + 7) // 8))
        if T.positive(n):
            return T.floordiv(self.bits(n) + 7, 8)
        ub = ()
        m = self.cd.common_mod(n, n)
        if m is not None:
            ub = (T.floordiv(self.bits(m) + 7, 8),)
        return P(T.C.gen('nbytes', (n,), 1, None, ub=ub))

    def bits(self, n):
        c = n.const()
        if c is not None:
            return P(abs(int(c)).bit_length())
        # an integer below m has no more bits than m
        ub = ()
        m = self.cd.common_mod(n, n)
        if m is not None:
            ub = (self.bits(m),)
        lo = 0
        l = T.lower(n)
        if l is not None and l > 0:
            lo = int(-(-l // 1)).bit_length()
        hi = 1 << 40
        return P(T.C.gen('bits', (n,), lo, hi, ub=ub))

    def minimal(self, n, be):
        c = n.const()
        if c is not None:
            c = int(c)
            k = max(1, (c.bit_length() + 7) // 8)
            return Bytes([('b', P(x)) for x in c.to_bytes(k, 'big' if be else 'little')])
        return Bytes([('be' if be else 'le', n, self.nbytes(n))])

    def fits(self, n, L, pc):
        """n < 256^L"""
        nb = self.nbytes(n)
        return self.geq(L - nb, pc)

    # value of a whole byte string
    def value(self, b, be, pc):
        segs = list(b.segs)
        if not be:
            segs = list(reverse(b).segs)
        if not segs:
            return ZERO
        while segs and segs[0][0] in ('b', 'rep') and segs[0][1].const() == 0:
            segs.pop(0)
        if not segs:
            return ZERO
        if all(s[0] == 'b' for s in segs):
            v = ZERO
            for s in segs:
                v = v.scale(256) + s[1]
            return v
        tot = ZERO
        tail = ZERO             # bytes to the right
        for s in reversed(segs):
            tot = tot + self.shift(self.seg_value(s), tail)
            tail = tail + seg_len(s)
        return tot

    def shift(self, v, nbytes):
        return shift(v, nbytes)

    def pow2(self, e):
        return pow2(e)

    def seg_value(self, s):
        """value of one segment read big-endian"""
        if s[0] == 'b':
            return s[1]
        if s[0] == 'be':
            return s[1]
        if s[0] == 'le':
            return P(T.C.gen('swap', (s[1], s[2]), 0, None))
        if s[0] == 'v':
            return P(T.C.gen('beval', s[1:], 0, None))
        if s[0] == 'vr':
            return P(T.C.gen('leval', s[1:], 0, None))
        if s[0] == 'rep':
            return P(T.C.gen('repval', s[1:], 0, None))
        raise Unsupported('value of %r' % (s,))

    # positions
    def find(self, b, pos, pc):
        """(segment index, offset inside it) of position pos"""
        off = ZERO
        for i, s in enumerate(b.segs):
            d = pos - off
            L = seg_len(s)
            if self.geq(d, pc) and self.geq(L - d - 1, pc):
                return i, d
            if self.eqz(d, pc):
                return i, ZERO
            if not self.geq(d - L, pc):
                if theory.valid(self.cd, self.cd.ge(d, pc), pc) and theory.valid(self.cd, self.cd.ge(L - d - 1, pc), pc):
                    return i, d
                break
            off = off + L
        raise Unsupported('position %r in %r when %r' % (pos, b, pc))

    def get(self, b, pos, pc):
        i, d = self.find(b, pos, pc)
        return self.seg_get(b.segs[i], d, pc)

    def seg_get(self, s, d, pc):
        if s[0] in ('b', 'rep'):
            return s[1]
        if s[0] == 'v':
            return self.vbyte(s[1], s[2] + d)
        if s[0] == 'vr':
            return self.vbyte(s[1], s[2] + s[3] - 1 - d)
        n, L = s[1], s[2]
        k = d if s[0] == 'le' else L - 1 - d          # weight index
        if n.const() is not None and k.const() is not None:
            return P((int(n.const()) >> (8 * int(k.const()))) & 255)
        hi = 255
        if self.eqz(k - (L - 1), pc):
            m = self.cd.common_mod(n, n)
            if m is not None:
                # n < 2^bits(m): the top byte has 8L - bits(m) spare bits
                for spare in (7, 6, 5, 4, 3, 2, 1):
                    if self.geq(L.scale(8) - spare - self.bits(m), pc):
                        hi = (1 << (8 - spare)) - 1
                        break
        return P(T.C.gen('byteof', (n, k, hi), 0, hi))

    def vbyte(self, name, pos):
        return P(T.C.gen('vbyte', (name, pos), 0, 255))

    def put(self, b, pos, val, pc):
        i, d = self.find(b, pos, pc)
        s = b.segs[i]
        if s[0] in ('b',):
            return normal(b.segs[:i] + (('b', val),) + b.segs[i + 1:])
        old = self.seg_get(s, d, pc)
        if old == val:
            return b
        if s[0] in ('le', 'be'):
            k = d if s[0] == 'le' else s[2] - 1 - d
            n2 = s[1] + self.shift(val - old, k)
            return Bytes(b.segs[:i] + ((s[0], n2, s[2]),) + b.segs[i + 1:])
        L = seg_len(s)
        a, rest = self.split_seg(s, d, pc)
        _, c = self.split_seg(rest, ONE, pc)
        return normal(b.segs[:i] + (a, ('b', val), c) + b.segs[i + 1:])

    def split_seg(self, s, k, pc):
        L = seg_len(s)
        if s[0] == 'v':
            return ('v', s[1], s[2], k), ('v', s[1], s[2] + k, L - k)
        if s[0] == 'vr':
            return ('vr', s[1], s[2] + L - k, k), ('vr', s[1], s[2], L - k)
        if s[0] == 'rep':
            return ('rep', s[1], k), ('rep', s[1], L - k)
        if s[0] == 'be' and k.const() is not None and s[1].const() is not None and L.const() is not None:
            bs = int(s[1].const()).to_bytes(int(L.const()), 'big')
            k = int(k.const())
            return ('be', P(int.from_bytes(bs[:k], 'big')), P(k)), ('be', P(int.from_bytes(bs[k:], 'big')), L - k)
        if s[0] == 'le' and (L - k).const() == 1:
            top = self.seg_get(s, k, pc)
            return ('le', s[1] - self.shift(top, k), k), ('b', top)
        if s[0] == 'be' and k.const() == 1:
            top = self.seg_get(s, ZERO, pc)
            return ('b', top), ('be', s[1] - self.shift(top, L - 1), L - 1)
        raise Unsupported('splitting %r at %r' % (s, k))

    def sub(self, b, off, n, pc):
        """n bytes from off"""
        if self.eqz(off, pc) and self.eqz(length(b) - n, pc):
            return b
        if n.const() == 0 or self.eqz(n, pc):
            return Bytes(())
        out = []
        pos = ZERO
        started = False
        rem = n
        for s in b.segs:
            L = seg_len(s)
            if not started:
                d = off - pos
                if self.geq(d - L, pc) and not self.eqz(L, pc):
                    pos = pos + L
                    continue
                if not self.eqz(d, pc):
                    if not (self.geq(d, pc) and self.geq(L - d, pc)):
                        raise Unsupported('slice [%r..+%r] of %r' % (off, n, b))
                    _, s = self.split_seg(s, d, pc)
                    L = L - d
                    pos = pos + d
                started = True
            if self.eqz(rem, pc):
                break
            if self.geq(rem - L, pc):
                out.append(s)
                rem = rem - L
            elif self.geq(L - rem, pc):
                a, _ = self.split_seg(s, rem, pc)
                out.append(a)
                rem = ZERO
                break
            else:
                raise Unsupported('slice [%r..+%r] of %r' % (off, n, b))
            pos = pos + L
        if not self.eqz(rem, pc):
            raise Unsupported('slice [%r..+%r] of %r' % (off, n, b))
        return normal(out)

    def equal(self, a, b, pc):
        """True when provably the same byte string, else False (unknown)"""
        a, b = normal(a.segs), normal(b.segs)
        if len(a.segs) != len(b.segs):
            return False
        for s, t in zip(a.segs, b.segs):
            if s[0] != t[0]:
                return False
            if s[0] == 'b':
                if not self.eqz(s[1] - t[1], pc):
                    return False
                continue
            if s[0] in ('be', 'le', 'rep'):
                if not self.cd_eq(s[1], t[1], pc):
                    return False
            elif s[1] != t[1] or not self.eqz(s[2] - t[2], pc):
                return False
            if not self.eqz(s[-1] - t[-1], pc):
                return False
        return True

    def cd_eq(self, x, y, pc):
        if x == y:
            return True
        e = self.cd.eq(x, y, pc)
        return e.is_true() or (pc & ~e).is_false()
