"""Integer terms: polynomials (rational coefficients, integer valued) over
hash-consed generators, with canonical residues `Mod(P, m)`.

A term denotes an integer.  Two terms that are equal as objects denote equal
integers in every run of the analysed program; the converse is what the
theory module has to work for.
"""
from fractions import Fraction
from math import isqrt

class TooBig(Exception):
    pass

TERM_CAP = 400000


class Gen:
    __slots__ = ('id', 'kind', 'args', 'lo', 'hi', 'ub', 'lb')

    def __repr__(self):
        return show_gen(self)


class Ctx:
    """All interning tables; one per analysis run."""

    def __init__(self):
        self.gens = []
        self.table = {}
        self.residues = {}      # gen id -> (M, r): value = r mod M
        self.primes = {}        # Poly -> dict(odd=, min=)  moduli known prime
        self.rules = {}         # modulus key -> list of (gid, exp, Poly)
        self.modcache = {}
        self.lowcache = {}
        self.deep = {}
        self.gmod = {}          # gen id -> modulus of which it is a canonical residue
        self.nonzero = {}       # modulus -> set of gen ids known nonzero
        self.nzpoly = {}        # modulus -> set of polynomials known nonzero (as zero() leaves them)

    def gen(self, kind, args=(), lo=None, hi=None, ub=(), lb=()):
        key = (kind, args)
        g = self.table.get(key)
        if g is None:
            g = Gen()
            g.id = len(self.gens)
            g.kind = kind
            g.args = args
            g.lo = lo
            g.hi = hi
            g.ub = tuple(ub)
            g.lb = tuple(lb)
            self.gens.append(g)
            self.table[key] = g
        return g


C = Ctx()


def reset():
    global C
    C = Ctx()
    return C


def ctx():
    return C


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ('d', '_h', '_k')

    def __init__(self, d):
        self.d = d
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __ne__(self, o):
        return not self == o

    # -- structure
    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const(self):
        if not self.d:
            return 0
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def single_gen(self):
        """the generator g if this poly is exactly 1*g"""
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return C.gens[m[0][0]]
        return None

    def gens(self):
        s = set()
        for m in self.d:
            for g, _ in m:
                s.add(g)
        return s

    def degree_in(self, gid):
        k = 0
        for m in self.d:
            for g, e in m:
                if g == gid and e > k:
                    k = e
        return k

    # -- arithmetic
    def __add__(self, o):
        o = P(o)
        if not self.d:
            return o
        if not o.d:
            return self
        a, b = (self.d, o.d) if len(self.d) >= len(o.d) else (o.d, self.d)
        r = dict(a)
        for m, c in b.items():
            s = r.get(m, 0) + c
            if s:
                r[m] = _norm(s)
            else:
                r.pop(m, None)
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        if not self.d or not o.d:
            return ZERO
        c = o.const()
        if c is not None:
            return self if c == 1 else Poly({m: _norm(v * c) for m, v in self.d.items()})
        c = self.const()
        if c is not None:
            return o if c == 1 else Poly({m: _norm(v * c) for m, v in o.d.items()})
        r = {}
        get = r.get
        if len(self.d) * len(o.d) > 40 * TERM_CAP:
            raise TooBig()
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = mmul(m1, m2)
                s = get(m, 0) + c1 * c2
                r[m] = s
        r = {m: _norm(c) for m, c in r.items() if c}
        if len(r) > TERM_CAP:
            raise TooBig()
        return Poly(r)

    __rmul__ = __mul__

    def __pow__(self, n):
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def scale(self, c):
        return Poly({m: _norm(v * c) for m, v in self.d.items()}) if c else ZERO

    def subs(self, mapping):
        """mapping: gid -> Poly, simultaneous"""
        if not any(g in mapping for g in self.gens()):
            return self
        r = ZERO
        cache = {}
        acc = {}
        for m, c in self.d.items():
            keep = []
            reps = []
            for g, e in m:
                if g in mapping:
                    reps.append((g, e))
                else:
                    keep.append((g, e))
            if not reps:
                acc[m] = _norm(acc.get(m, 0) + c)
                continue
            t = Poly({tuple(keep): c})
            for g, e in reps:
                k = (g, e)
                if k not in cache:
                    cache[k] = mapping[g] ** e
                t = t * cache[k]
            for mm, cc in t.d.items():
                acc[mm] = _norm(acc.get(mm, 0) + cc)
        return Poly({m: c for m, c in acc.items() if c})

    def __repr__(self):
        return show(self)


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    i = j = 0
    r = []
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, b = m1[i], m2[j]
        if a[0] == b[0]:
            r.append((a[0], a[1] + b[1]))
            i += 1
            j += 1
        elif a[0] < b[0]:
            r.append(a)
            i += 1
        else:
            r.append(b)
            j += 1
    if i < n1:
        r.extend(m1[i:])
    elif j < n2:
        r.extend(m2[j:])
    return tuple(r)


ZERO = Poly({})
ONE = Poly({(): 1})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Gen):
        return Poly({((x.id, 1),): 1})
    if isinstance(x, (int, Fraction)):
        x = _norm(x)
        return Poly({(): x}) if x else ZERO
    raise TypeError(repr(x))


def sym(name, lo=None, hi=None, ub=(), lb=()):
    return P(C.gen('sym', (name,), lo, hi, ub, lb))


def show_gen(g):
    k = g.kind
    if k == 'sym':
        return str(g.args[0])
    if k == 'mod':
        return '(%s mod %s)' % (show(g.args[0]), show(g.args[1]))
    if k == 'fd':
        return 'floor((%s)/%s)' % (show(g.args[0]), g.args[1])
    if k == 'pow':
        return 'pow(%s, %s mod %s)' % tuple(map(show, g.args))
    return '%s(%s)' % (k, ', '.join(show(a) if isinstance(a, Poly) else str(a) for a in g.args))


def show(p, limit=400):
    if not p.d:
        return '0'
    out = []
    for m, c in sorted(p.d.items(), key=lambda t: (-sum(e for _, e in t[0]), t[0])):
        s = '*'.join(show_gen(C.gens[g]) + ('^%d' % e if e > 1 else '') for g, e in m)
        if not s:
            s = str(c)
        elif c == -1:
            s = '-' + s
        elif c != 1:
            s = '%s*%s' % (c, s)
        out.append(s)
        if sum(map(len, out)) > limit:
            out.append('...')
            break
    return ' + '.join(out).replace('+ -', '- ')


# ---------------------------------------------------------------- bounds

def bounds(p, depth=5):
    """(lo, hi) integer/rational bounds or None each"""
    return lower(p, depth), (lambda x: None if x is None else -x)(lower(-p, depth))


def _gen_lo(g):
    return g.lo


def lower(p, depth=5):
    """a proven lower bound of p, or None"""
    best = _lower1(p)
    if depth == 0 or (best is not None and best >= 0) or len(p.d) > 60:
        return best
    key = (p, depth)
    r = C.lowcache.get(key, 0)
    if r != 0:
        return r if r != 'z' else 0
    # replace symbolic upper/lower bounds of generators, one at a time
    for m, c in p.d.items():
        if len(m) == 1 and m[0][1] == 1:
            g = C.gens[m[0][0]]
            reps = g.ub if c < 0 else g.lb
            for u in reps:
                q = p - Poly({m: c}) + u.scale(c)
                if m in q.d and abs(q.d[m]) >= abs(c):
                    continue
                r = lower(q, depth - 1)
                if r is not None and (best is None or r > best):
                    best = r
                    if best >= 0:
                        break
            if best is not None and best >= 0:
                break
    C.lowcache[key] = best if best != 0 else 'z'
    return best


def _lower1(p):
    tot = 0
    for m, c in p.d.items():
        if not m:
            tot += c
            continue
        lo, hi = 1, 1
        neg_ok = True
        for g, e in m:
            gl, gh = C.gens[g].lo, C.gens[g].hi
            if gl is None or gl < 0:
                if e % 2 == 0:
                    gl2 = 0
                    gh2 = None
                    if gl is not None and gh is not None:
                        gh2 = max(abs(gl), abs(gh)) ** e
                    if gl is not None and gh is not None:
                        pass
                    gl_, gh_ = gl2, gh2
                else:
                    if gl is None or e != 1 or len(m) != 1:
                        if gh is not None and e == 1 and len(m) == 1:
                            gl_, gh_ = None, gh
                        else:
                            return None
                    else:
                        gl_, gh_ = gl, gh
            else:
                gl_ = gl ** e
                gh_ = None if gh is None else gh ** e
            if len(m) == 1:
                lo, hi = gl_, gh_
            else:
                lo = lo * gl_
                hi = None if (hi is None or gh_ is None) else hi * gh_
        if c > 0:
            if lo is None:
                return None
            tot += c * lo
        else:
            if hi is None:
                return None
            tot += c * hi
    return tot


def nonneg(p):
    l = lower(p)
    return l is not None and l >= 0


def positive(p):
    l = lower(p)
    return l is not None and l > 0


# ---------------------------------------------------------------- residues of constants

def rem_const(p, c):
    """p mod c as an int when the generators' residues are known, else None.
    Handles rational coefficients when residues are known to enough precision."""
    den = 1
    for v in p.d.values():
        if type(v) is Fraction:
            den = den * v.denominator // _gcd(den, v.denominator)
    M = c * den
    tot = 0
    for m, v in p.d.items():
        k = v * den
        k = int(k)
        if k % M == 0:
            continue
        t = 1
        for g, e in m:
            r = gen_residue(C.gens[g], M)
            if r is None:
                # the coefficient may absorb part of the modulus
                return None
            t = t * pow(r, e, M) % M
        tot = (tot + k * t) % M
    if tot % den:
        return None
    return (tot // den) % c


def gen_residue(g, M):
    if g.id in C.residues:
        MM, r = C.residues[g.id]
        if MM % M == 0:
            return r % M
    return None


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


# ---------------------------------------------------------------- Mod

def mod_info(m):
    return C.primes.get(m)


def smooth_part(a, info):
    """a without the prime factors that cannot vanish modulo a prime of which info is known"""
    small = [f for f in (2, 3, 5, 7, 11, 13) if f < info.get('min', 2) or (f == 2 and info.get('odd'))]
    for f in small:
        while a % f == 0:
            a //= f
    return a


def is_prime_mod(m):
    return m in C.primes


def flat(p, m):
    """drop inner residues modulo the same m"""
    mp = None
    for g in p.gens():
        gg = C.gens[g]
        if gg.kind == 'mod' and gg.args[1] == m:
            if mp is None:
                mp = {}
            mp[g] = gg.args[0]
    if mp:
        p = p.subs(mp)
    return powmerge(reduce_mod(p, m), m)


def _apply_rules(p, rules):
    changed = True
    while changed:
        changed = False
        for gid, exp, rep in rules:
            hit = False
            for mm in p.d:
                for g, e in mm:
                    if g == gid and e >= exp:
                        hit = True
                        break
                if hit:
                    break
            if not hit:
                continue
            changed = True
            acc = {}
            groups = {}
            for mm, c in p.d.items():
                k = 0
                for i, (g, e) in enumerate(mm):
                    if g == gid and e >= exp:
                        k, r = divmod(e, exp)
                        base = mm[:i] + (((g, r),) if r else ()) + mm[i + 1:]
                        break
                if k:
                    groups.setdefault(k, {})
                    groups[k][base] = groups[k].get(base, 0) + c
                else:
                    acc[mm] = c
            r = Poly(acc)
            for k, dd in groups.items():
                r = r + Poly({a: b for a, b in dd.items() if b}) * (rep ** k)
            p = r
    return p


def reduce_mod(p, m):
    c = m.const()
    rules = C.rules.get(m)
    if rules:
        p = _apply_rules(p, rules)
    if c is not None:
        d = {}
        for mm, v in p.d.items():
            if type(v) is Fraction:
                if _gcd(v.denominator, c) == 1 and is_prime_mod(m):
                    v = v.numerator * pow(v.denominator, -1, c)
                else:
                    d[mm] = v
                    continue
            v %= c
            if v:
                d[mm] = v
        return Poly(d)
    g = m.single_gen()
    if g is not None:
        gid = g.id
        drop = [mm for mm, v in p.d.items() if any(x == gid for x, _ in mm)
                and type(v) is int]
        if drop:
            d = dict(p.d)
            for mm in drop:
                del d[mm]
            p = Poly(d)
    return p


def integral(p):
    if all(type(v) is int for v in p.d.values()):
        return True
    den = 1
    for v in p.d.values():
        if type(v) is Fraction:
            den = den * v.denominator // _gcd(den, v.denominator)
    return rem_const(p.scale(den), den) == 0


def in_range(p, m):
    """0 <= p < m provable"""
    return integral(p) and nonneg(p) and nonneg(m - p - 1)


def mod(p, m):
    """canonical representative of p modulo m (m > 0), as a term"""
    p, m = P(p), P(m)
    key = (p, m)
    r = C.modcache.get(key)
    if r is not None:
        return r
    r = _mod(p, m)
    C.modcache[key] = r
    return r


def _mod(p, m):
    mc = m.const()
    if mc is not None:
        c = p.const()
        if c is not None and type(c) is int:
            return P(c % mc)
        r = rem_const(p, mc)
        if r is not None:
            return P(r)
    g = p.single_gen()
    if g is not None and g.kind == 'mod' and g.args[1] == m:
        return p
    if g is not None and g.kind == 'byteof' and g.args[1] == ZERO and mc is not None and 256 % int(mc) == 0:
        return mod(g.args[0], m)         # lowest byte
    if g is not None and g.kind == 'shr' and mc == 2:
        r = lowest_bit(g.args[0], g.args[1])
        if r is not None:
            return r
    q = flat(p, m)
    if mc is not None:
        r = rem_const(q, mc)
        if r is not None:
            return P(r)
    if any(type(v) is Fraction for v in q.d.values()) and mc is not None and not is_prime_mod(m):
        # rational coefficients are opaque to a small modulus unless residues are known
        if in_range(q, m):
            return q
        return P(C.gen('mod', (q, m), 0, mc - 1))
    if in_range(q, m):
        return q
    # peel a multiple of m when that puts it in range (e.g. p - 1 - p)
    if mc is None and len(m.d) > 0:
        for k in (1, -1, 2, -2):
            if in_range(q + m.scale(k), m):
                return q + m.scale(k)
    lo = 0
    hi = None if mc is None else mc - 1
    return P(C.gen('mod', (q, m), lo, hi, ub=(m - 1,)))


def inner(p, m):
    """the polynomial whose residue modulo m is p"""
    return flat(p, m)


# ---------------------------------------------------------------- floor division by a constant

def floordiv(p, c):
    p = P(p)
    assert c > 0
    if c == 1:
        return p
    k = p.const()
    if k is not None and type(k) is int:
        return P(k // c)
    r = rem_const(p, c)
    if r is not None:
        return (p - r).scale(Fraction(1, c))
    # extract multiples
    out, rest = {}, {}
    for m, v in p.d.items():
        if type(v) is Fraction:
            rest[m] = v
            continue
        q, r = divmod(v, c)
        if m and r and q >= 0 and v > 0:
            q2, r2 = q, r
        elif m and v < 0:
            q2, r2 = (0, v) if r else (q, 0)
        else:
            q2, r2 = q, r
        if q2:
            out[m] = q2
        if r2:
            rest[m] = r2
    rp = Poly(rest)
    if in_range(rp, P(c)):
        return Poly(out)
    # floor(floor(x/a)/b) = floor(x/(ab))
    g = rp.single_gen()
    if g is not None and g.kind == 'fd':
        return Poly(out) + floordiv(g.args[0], g.args[1] * c)
    lo, hi = bounds(rp)
    fl = None if lo is None else _fl(lo, c)
    fh = None if hi is None else _fl(hi, c)
    g = C.gen('fd', (rp, c), fl, fh,
              ub=(rp.scale(Fraction(1, c)),),
              lb=(rp.scale(Fraction(1, c)) - Fraction(c - 1, c),))
    return Poly(out) + P(g)


def _fl(x, c):
    x = Fraction(x) / c
    return x.numerator // x.denominator


# ---------------------------------------------------------------- powers and inverses

def word(g):
    """(n, index, width) when the generator g is a word of n >= 0"""
    if g is None or g.kind not in ('digit', 'digit64', 'byteof') or not nonneg(g.args[0]):
        return None
    return g.args[0], g.args[1], {'digit': 32, 'digit64': 64, 'byteof': 8}[g.kind]


def word_bit(n, idx, j, width):
    """bit j of word idx of n"""
    idx, j = P(idx), P(j)
    pos = idx.scale(width) + j
    g = j.single_gen()
    if g is not None and g.kind == 'mod' and g.args[1] == P(width):
        q = g.args[0]
        # idx = floor(q'/width) + c with q' = q modulo width
        for u in idx.gens():
            h = C.gens[u]
            if h.kind == 'fd' and h.args[1] == width and mod(h.args[0], P(width)) == j:
                q = h.args[0]
                break
        d = (idx - floordiv(q, width)).const()
        if d is not None:
            pos = q + width * d
    if n.const() is not None and pos.const() is not None:
        return P((abs(int(n.const())) >> int(pos.const())) & 1)
    return kbit(n, pos)


def lowest_bit(x, y):
    """floor(x / 2^y) mod 2 for x >= 0"""
    w = word(x.single_gen())
    if w is not None and nonneg(P(w[2] - 1) - P(y)):
        return word_bit(w[0], w[1], y, w[2])
    return kbit(x, y) if nonneg(x) else None


def kbit(n, pos):
    """bit pos of the natural number n"""
    return mod(n, P(2)) if P(pos) == ZERO else P(C.gen('kbit', (n, P(pos)), 0, 1))


def power(b, e, m):
    """b^e mod m, e >= 0 (a term), in [0, m); for an odd prime m the caller has excluded e = 0
    unless e is constant"""
    b, e, m = P(b), P(e), P(m)
    ec = e.const()
    if ec is not None and type(ec) is int and 0 <= ec <= 16:
        return mod(inner(b, m) ** ec, m)
    bi = inner(b, m)
    bc, mc = bi.const(), m.const()
    if bc is not None and mc is not None and ec is not None and type(ec) is int:
        return P(pow(bc, ec, mc))
    if bc == 1:
        return mod(ONE, m)
    if bc == 0 and positive(e):
        return ZERO
    if is_prime_mod(m) and m != P(2):
        return mod(upow(bi, e, m), m)
    return P(C.gen('pow', (bi, e, m), 0, None if mc is None else mc - 1, ub=(m - 1,)))


def _split_exp(e, m):
    """e = frac + k modulo m - 1 with k a small integer and frac canonical"""
    mc = m.const()
    # residues modulo m - 1 may be dropped
    mp = {}
    for g in e.gens():
        gg = C.gens[g]
        if gg.kind == 'mod' and gg.args[1] == m - 1:
            if all(type(c) is int for mm, c in e.d.items() if any(x == g for x, _ in mm)):
                mp[g] = gg.args[0]
    if mp:
        return _split_exp(e.subs(mp), m)
    if mc is None:
        g = m.single_gen()
        if g is None:
            return e, 0
        key = ((g.id, 1),)
        al = Fraction(e.d.get(key, 0))
        # e = al*(m-1) + al + rest
        rest = e - Poly({key: al}) if al else e
        c = Fraction(rest.d.get((), 0)) + al
        rest = Poly({k: v for k, v in rest.d.items() if k})
        al = al - (al.numerator // al.denominator)
        k = c.numerator // c.denominator
        frac = c - k
        return (m - 1).scale(al) + P(frac) + rest if al else P(frac) + rest, int(k)
    ec = e.const()
    if ec is None:
        d = {}
        for mm, c in e.d.items():
            if type(c) is int and mm == ():
                c %= mc - 1
                if c > (mc - 1) // 2:
                    c -= mc - 1
            if c:
                d[mm] = c
        e = Poly(d)
        c = e.d.get((), 0)
        if type(c) is int and abs(c) <= 16:
            return e - c, c
        return e, 0
    if type(ec) is not int:
        return e, 0
    ec %= mc - 1
    for den in (1, 2, 4, 8, 3, 16):
        j = (ec * den + (mc - 1) // 2) // (mc - 1)
        c = Fraction(ec) - Fraction(j * (mc - 1), den)
        if abs(c) <= 16:
            k = c.numerator // c.denominator
            r = (ec - k) % (mc - 1)
            return P(r), k
    return P(ec), 0


def upow(b, e, m):
    """U(b, e): b^e for a unit b, zero for b = 0, as a polynomial modulo the odd prime m.
    The exponent may be any integer term; it counts modulo m - 1."""
    b, e, m = P(b), P(e), P(m)
    if b.is_const() and b.const() in (0, 1):
        return b
    bc, mc = b.const(), m.const()
    if bc == -1 or (bc is not None and mc is not None and bc == mc - 1):
        r = rem_const(e, 2)
        if r is not None:
            return P(-1) if r else ONE
    frac, k = _split_exp(e, m)
    fc = frac.const()
    if fc == 0:
        if 0 < k <= 16:
            return b ** k
        if -16 <= k < 0:
            return _inv_poly(b, m) ** (-k)
        if k == 0:
            if bc is not None and mc is not None:
                return ONE
            frac = ZERO
    if bc is not None and mc is not None and frac.is_const() and type(fc) is int:
        return P(pow(int(bc), (int(fc) + k) % (mc - 1), mc))
    # split the base
    res = ONE
    common = None
    for mm in b.d:
        dd = dict(mm)
        common = dd if common is None else {g: min(x, dd[g]) for g, x in common.items() if g in dd}
        if not common:
            break
    single = b.single_gen()
    if common and not (single is not None and single.kind not in ('inv', 'pow')):
        for g, x in sorted(common.items()):
            gg = C.gens[g]
            if gg.kind == 'inv' and gg.args[1] == m:
                res = res * upow(gg.args[0], -e * x, m)
            elif gg.kind == 'pow' and gg.args[2] == m:
                res = res * upow(gg.args[0], gg.args[1] * e * x, m)
            else:
                res = res * upow(P(gg), e * x, m)
        b = Poly({tuple((g, x - common.get(g, 0)) for g, x in mm if x - common.get(g, 0)): c for mm, c in b.d.items()})
        return res * upow(b, e, m) if b != ONE else res
    if mc is not None:
        lead = b.d[max(b.d)]
        if lead != 1 and bc is None:
            q = reduce_mod(b.scale(pow(lead, -1, mc)), m)
            return upow(P(lead), e, m) * upow(q, e, m)
    elif all(type(c) is int for c in b.d.values()):
        cg = 0
        for c in b.d.values():
            cg = _gcd(cg, abs(c))
        s = content_sign(b)
        if bc is None:
            if cg > 1 or s < 0:
                return upow(P(cg * s), e, m) * upow(b.scale(Fraction(s, cg)), e, m)
        else:
            if s < 0:
                return upow(P(-1), e, m) * upow(P(cg), e, m)
            for f in (2, 3, 5, 7):
                v = 0
                n = cg
                while n % f == 0:
                    n //= f
                    v += 1
                if v and cg != f:
                    return upow(P(f), e * v, m) * upow(P(n), e, m)
    if mc is None and m.single_gen() is not None and fc is None:
        al = Fraction(frac.d.get(((m.single_gen().id, 1),), 0))
        if al >= Fraction(1, 2):
            half = (m - 1).scale(Fraction(1, 2))
            if frac != half:
                return P(C.gen('pow', (b, half, m), 0, None, ub=(m - 1,))) * upow(b, frac - half + k, m)
    g = P(C.gen('pow', (b, frac, m), 0, None if mc is None else mc - 1, ub=(m - 1,)))
    if k == 0 or (fc == 0 and k == 0):
        return g
    if k > 16 or k < -16:
        return P(C.gen('pow', (b, frac + k, m), 0, None if mc is None else mc - 1, ub=(m - 1,)))
    return g * (b ** k if k > 0 else _inv_poly(b, m) ** (-k))


def cancel(p, m):
    """merge powers of a generator with powers of its inverse (0 is its own inverse)"""
    gs = p.gens()
    nz = C.nonzero.get(m, ())
    pairs = []
    for i in gs:
        gg = C.gens[i]
        if gg.kind == 'inv' and gg.args[1] == m:
            b = gg.args[0].single_gen()
            if b is not None and b.id in gs:
                pairs.append((b.id, i))
    if not pairs:
        return p
    hit = False
    out = {}
    for mm, c in p.d.items():
        d = None
        for b, i in pairs:
            t = dict(mm) if d is None else d
            x, y = t.get(b, 0), t.get(i, 0)
            if not x or not y or (x == y == 1 and b not in nz):
                continue
            d, k = t, min(x, y)
            if x == y and b not in nz:
                k -= 1
            d[b], d[i] = x - k, y - k
        if d is not None:
            hit = True
            mm = tuple(sorted((g, e) for g, e in d.items() if e))
        v = out.get(mm, 0) + c
        if v:
            out[mm] = v
        else:
            out.pop(mm, None)
    return reduce_mod(Poly(out), m) if hit else p


def powmerge(p, m):
    """combine powers of one base in every monomial"""
    if not is_prime_mod(m):
        return p
    p = cancel(p, m)
    pw = {g: C.gens[g] for g in p.gens() if C.gens[g].kind == 'pow' and C.gens[g].args[2] == m}
    if not pw:
        return p
    keep, extra = {}, None
    for mm, c in p.d.items():
        by = {}
        multi = False
        for g, x in mm:
            if g in pw:
                l = by.setdefault(pw[g].args[0], [])
                l.append((g, x))
                if x > 1 or len(l) > 2:
                    multi = True
                elif len(l) == 2:
                    hs = [pw[a].args[1].scale(2) == m - 1 for a, _ in l]
                    if hs[0] == hs[1] or m.const() is not None or \
                            any(pw[a].args[1].is_const() for a, _ in l):
                        multi = True
        if not multi:
            keep[mm] = c
            continue
        t = Poly({tuple((g, x) for g, x in mm if g not in pw): c})
        for b, l in by.items():
            e = ZERO
            for g, x in l:
                e = e + pw[g].args[1] * x
            t = t * (P(C.gens[l[0][0]]) if len(l) == 1 and l[0][1] == 1 else upow(b, e, m))
        extra = t if extra is None else extra + t
    if extra is None:
        return p
    return reduce_mod(Poly(keep) + extra, m)


def content_sign(p):
    """+1/-1: sign of the leading coefficient (canonical order)"""
    m = max(p.d)
    return 1 if p.d[m] > 0 else -1


def canon_sign(p, m):
    """(s, q) with p = s*q mod m, q with canonical sign"""
    if not p.d:
        return 1, p
    mc = m.const() if m is not None else None
    if mc is not None:
        lead = p.d[max(p.d)]
        if lead > mc - lead:
            return -1, reduce_mod(-p, m)
        return 1, p
    return (1, p) if content_sign(p) > 0 else (-1, -p)


def inv(b, m):
    """inverse modulo a prime m, inv(0) = 0; in [0, m)"""
    b, m = P(b), P(m)
    bi = inner(b, m)
    return mod(_inv_poly(bi, m), m)


def _inv_poly(bi, m):
    bc, mc = bi.const(), m.const()
    if bc is not None:
        if bc == 0:
            return ZERO
        if bc in (1, -1):
            return bi
        if mc is not None:
            return P(pow(bc, -1, mc))
    # monomial factor out: inv is multiplicative (0 included)
    common = None
    for mm in bi.d:
        dd = dict(mm)
        if common is None:
            common = dd
        else:
            common = {g: min(e, dd[g]) for g, e in common.items() if g in dd}
        if not common:
            break
    res = ONE
    if common:
        for g, e in sorted(common.items()):
            gg = C.gens[g]
            if gg.kind == 'inv' and gg.args[1] == m:
                base = gg.args[0]
                res = res * (base ** e)
            else:
                res = res * P(C.gen('inv', (P(gg), m), 0, None, ub=(m - 1,))) ** e
        d = {}
        for mm, c in bi.d.items():
            dd = dict(mm)
            nm = tuple((g, e - common.get(g, 0)) for g, e in mm if e - common.get(g, 0))
            d[nm] = c
        bi = Poly(d)
    # integer content / leading coefficient
    if mc is not None:
        lead = bi.d[max(bi.d)]
        li = pow(lead, -1, mc)
        res = res.scale(li)
        bi = reduce_mod(bi.scale(li), m)
    else:
        cg = 0
        for c in bi.d.values():
            if type(c) is not int:
                cg = 1
                break
            cg = _gcd(cg, abs(c))
        s = content_sign(bi)
        if cg > 1:
            bi = bi.scale(Fraction(1, cg))
            res = res * P(C.gen('inv', (P(cg), m), 0, None, ub=(m - 1,)))
        if s < 0:
            bi = -bi
            res = -res
    if bi.const() is not None:
        c = bi.const()
        if c in (1, -1):
            return res.scale(c)
    sp = split_squares(bi, m)
    if sp is not None:
        return res * _inv_poly(sp[0], m) * _inv_poly(sp[1], m)
    return res * P(C.gen('inv', (bi, m), 0, None, ub=(m - 1,)))


def exact_div(q, n, m):
    """q / n modulo m when n divides q exactly (n with a unit pure-power leading term, or over the integers), or None"""
    mc = m.const()
    best = None
    for mm, c in n.d.items():
        if len(mm) == 1 and (mc is not None or c in (1, -1)):
            g, e = mm[0]
            if e == n.degree_in(g) and sum(1 for k in n.d if any(x == g and y == e for x, y in k)) == 1:
                if best is None or (e, g) > best[:2]:
                    best = (e, g, c)
    if best is None:
        return lex_div(q, n, m)
    e, g, c = best
    if q.degree_in(g) < e:
        return None
    ci = pow(c, -1, mc) if mc is not None else c
    quo = ZERO
    rest = q
    while True:
        k = rest.degree_in(g)
        if k < e:
            break
        lead = {}
        for mm, v in rest.d.items():
            if any(x == g and y == k for x, y in mm):
                t = tuple((x, y - e if x == g else y) for x, y in mm)
                lead[tuple((x, y) for x, y in t if y)] = v * ci
        lead = Poly(lead)
        quo = quo + lead
        rest = rest - lead * n
        if mc is not None:
            rest = Poly({mm: v % mc for mm, v in rest.d.items() if v % mc})
        if len(rest.d) > 20000:
            return None
    if rest.d:
        return None
    return reduce_mod(quo, m)


def lex_div(q, n, m):
    """exact quotient by lexicographic division, integer coefficients only"""
    gs = sorted(n.gens())
    if not gs or len(n.d) > 60 or len(q.d) > 4000:
        return None
    for g in gs:
        if q.degree_in(g) < n.degree_in(g):
            return None
    mc = m.const()

    def key(mm):
        d = dict(mm)
        return tuple(d.get(g, 0) for g in gs)
    # collect q by its monomials in the generators of n: the coefficients are polynomials in the others
    rows = {}
    for mm, c in q.d.items():
        out = tuple((g, e) for g, e in mm if g not in gs)
        rows.setdefault(out, {})[key(mm)] = c
    nd = {key(mm): c for mm, c in n.d.items()}
    ln = max(nd)
    lc = nd[ln]
    if type(lc) is not int or (mc is not None and _gcd(lc, mc) != 1):
        return None
    res = {}
    for out, r in rows.items():
        while r:
            l = max(r)
            c = r[l]
            dq = tuple(a - b for a, b in zip(l, ln))
            if min(dq) < 0:
                return None
            if mc is not None:
                k = c * pow(lc, -1, mc) % mc
            else:
                if type(c) is not int or c % lc:
                    return None
                k = c // lc
            for mm, v in nd.items():
                t = tuple(a + b for a, b in zip(mm, dq))
                x = r.get(t, 0) - k * v
                if mc is not None:
                    x %= mc
                if x:
                    r[t] = x
                else:
                    r.pop(t, None)
            if len(r) > 20000:
                return None
            res[tuple(sorted(out + tuple((g, e) for g, e in zip(gs, dq) if e)))] = k
    return reduce_mod(Poly(res), m)


def poly_sqrt(q):
    """the polynomial whose square is q (integer coefficients), or None"""
    gs = sorted(q.gens())
    if not gs or len(q.d) > 2000 or any(type(c) is not int for c in q.d.values()):
        return None
    for g in gs:
        if q.degree_in(g) % 2:
            return None
    rest = {}
    for mm, c in q.d.items():
        d = dict(mm)
        rest[tuple(d.get(g, 0) for g in gs)] = c
    for l in (max(rest), min(rest)):
        c = rest[l]
        if c < 0 or any(e % 2 for e in l) or isqrt(c) ** 2 != c:
            return None
    l = max(rest)
    lead, lc = tuple(e // 2 for e in l), isqrt(rest[l])
    del rest[l]
    r = [(lead, lc)]
    while rest:
        l = max(rest)
        k = tuple(a - b for a, b in zip(l, lead))
        if min(k) < 0 or rest[l] % (2 * lc) or k >= r[-1][0]:
            return None
        c = rest[l] // (2 * lc)
        for mm, v in r + [(k, None)]:
            t = tuple(a + b for a, b in zip(mm, k))
            x = rest.get(t, 0) - (2 * v * c if v is not None else c * c)
            if x:
                rest[t] = x
            else:
                rest.pop(t, None)
        r.append((k, c))
    return Poly({tuple((g, e) for g, e in zip(gs, mm) if e): c for mm, c in r})


def split_squares(q, m):
    """(a, b) with q = a b for a difference of two monomial squares, else None"""
    if len(q.d) != 2 or m.const() is not None:
        return None
    half = []
    for mm, c in q.d.items():
        if type(c) is not int or any(e % 2 for _, e in mm):
            return None
        r = int(abs(c) ** 0.5 + 0.5)
        if r * r != abs(c):
            return None
        half.append((1 if c > 0 else -1, Poly({tuple((g, e // 2) for g, e in mm): r})))
    if half[0][0] + half[1][0]:
        return None
    half.sort(key=lambda t: -t[0])
    return half[0][1] + half[1][1], half[0][1] - half[1][1]


def root(q, m):
    """the square root chosen by the root function of the field: its square is q whenever q is a square"""
    q = flat(P(q), m)
    c = q.const()
    if c in (0, 1) and c == 0:
        return ZERO
    g = C.gen('root', (q, m), 0, None, ub=(m - 1,))
    C.gmod[g.id] = m
    return P(g)


# ---------------------------------------------------------------- deep substitution

def depends(p, gids, seen=None):
    """some generator of gids occurs in p, at any depth"""
    return bool(deepgens(p) & gids)


def deepgens(p):
    out = set()
    for g in p.gens():
        out |= _gdeep(g)
    return out


def _gdeep(g):
    r = C.deep.get(g)
    if r is None:
        r = {g}
        for a in C.gens[g].args:
            if isinstance(a, Poly):
                r |= deepgens(a)
        C.deep[g] = r
    return r


def subst(p, mp, m=None, memo=None):
    """p with the generators of mp replaced at every depth; with m given, the
    replacement is only valid modulo m and p is only meant modulo m"""
    memo = {} if memo is None else memo
    keys = set(mp)
    top = {}
    for g in p.gens():
        if not (_gdeep(g) & keys):
            continue
        if g not in memo:
            memo[g] = mp[g] if g in mp else rebuild(C.gens[g], mp, m, memo)
        top[g] = memo[g]
    return p.subs(top) if top else p


def rebuild(g, mp, m, memo):
    f = lambda a: subst(a, mp, m, memo)
    k, a = g.kind, g.args
    if m is not None:
        if k in ('mod', 'inv') and a[1] == m:
            x = f(a[0])
            return mod(x, m) if k == 'mod' else _inv_poly(flat(x, m), m)
        if k == 'pow' and a[2] == m:
            return upow(flat(f(a[0]), m), a[1], m)
        if k == 'root' and a[1] == m:
            return root(f(a[0]), m)
        return P(g)
    if k == 'mod':
        return mod(f(a[0]), f(a[1]))
    if k == 'fd':
        return floordiv(f(a[0]), a[1])
    if k == 'pow':
        mm = f(a[2])
        if is_prime_mod(mm) and mm != P(2):
            return upow(flat(f(a[0]), mm), f(a[1]), mm)
        return power(f(a[0]), f(a[1]), mm)
    if k == 'inv':
        mm = f(a[1])
        return _inv_poly(flat(f(a[0]), mm), mm)
    if k == 'root':
        return root(f(a[0]), f(a[1]))
    na = tuple(f(x) if isinstance(x, Poly) else x for x in a)
    if k == 'pow2' and na[0].const() is not None:
        return P(2 ** int(na[0].const()))
    if k == 'bits' and na[0].const() is not None:
        return P(abs(int(na[0].const())).bit_length())
    if k == 'nbytes' and na[0].const() is not None:
        return P(max(1, (int(na[0].const()).bit_length() + 7) // 8))
    return P(C.gen(k, na, g.lo, g.hi, ub=tuple(f(u) for u in g.ub), lb=tuple(f(u) for u in g.lb)))
