"""Reduction of path conditions by the equalities they contain.

`refuted(cd, b)` is true when the condition b is contradictory in the theory of
the atoms: on each cube of the decision diagram the linear equalities are solved
(Gaussian elimination over the integers and modulo each prime), substituted in
the other atoms, and the result is normalised again.
"""
import time
from fractions import Fraction
from . import terms as T
from .terms import Poly, P, ZERO, ONE


LIMIT = 20.0          # seconds for one question; the committed tree needs well under one


class OutOfTime(Exception):
    pass


class Clock:
    end = None

    @classmethod
    def tick(cls):
        if cls.end is not None and time.monotonic() > cls.end:
            raise OutOfTime()


def refuted(cd, b):
    """b is contradictory; False when that is not established within the limits"""
    if Clock.end is not None:
        return refuted_in(cd, b)
    Clock.end = time.monotonic() + LIMIT
    try:
        return refuted_in(cd, b)
    except OutOfTime:
        return False
    finally:
        Clock.end = None


def refuted_in(cd, b, depth=12, limit=4000):
    n = 0
    for cube in b.cubes():
        n += 1
        if n > limit:
            return False
        if not cube_refuted(cd, [(cd.mgr.atoms[v], s) for v, s in cube.items()], depth):
            return False
    return True


def valid(cd, cond, pc):
    """cond holds whenever pc does"""
    bad = pc & ~cond
    return bad.is_false() or refuted(cd, bad)


def rebuild(cd, atom, mp, m=None, memo=None):
    """the condition of an atom after substitution"""
    k = atom[0]
    if k == 'b':
        return cd.mgr.var(atom)
    if k in ('z', 'sq', 'odd'):
        md, q = atom[1], atom[2]
        if m is not None:
            if md != m or not T.depends(q, set(mp)):
                return None
            q = T.subst(q, mp, m, memo)
        else:
            if not T.depends(q, set(mp)) and not T.depends(md, set(mp)):
                return None
            q, md = T.subst(q, mp, None, memo), T.subst(md, mp, None, memo)
        return {'z': cd.zero, 'sq': cd.square, 'odd': cd.odd}[k](q, md)
    if m is not None:
        return None
    if k == 'bit':
        g = T.C.gens[atom[1]]
        if not T.depends(P(g), set(mp)):
            return None
        return cd.eq(T.subst(P(g), mp, None, memo), ONE)
    q = atom[1]
    if not T.depends(q, set(mp)):
        return None
    q = T.subst(q, mp, None, memo)
    return cd.eq(q, ZERO) if k == 'ez' else cd.ge(q)


def linear(q, m=None):
    """(generator id, replacement) solving q = 0, or None"""
    best = None
    for mm, c in q.d.items():
        if len(mm) != 1 or mm[0][1] != 1:
            continue
        g = mm[0][0]
        gg = T.C.gens[g]
        if gg.kind in ('inv', 'ind', 'root'):
            continue
        if c not in (1, -1) and m is None:
            continue
        if c not in (1, -1) and not unit_const(c, m):
            continue
        rest = q - Poly({mm: c})
        if T.depends(rest, {g}):
            continue
        # prefer plain symbols, then short replacements
        key = (gg.kind != 'sym', len(rest.d), -g)
        if best is None or key < best[0]:
            best = (key, g, rest.scale(Fraction(-1) / Fraction(c)))
    return best and best[1:]


def unit_const(c, m):
    mc = m.const()
    if type(c) is not int:
        c = Fraction(c)
        return unit_const(c.numerator, m) and unit_const(c.denominator, m)
    if mc is not None:
        return c % mc != 0
    info = T.mod_info(m)
    a = abs(c)
    if info is None or a == 0:
        return False
    return T.smooth_part(a, info) < info.get('min', 2)


def cube_refuted(cd, lits, depth):
    if depth <= 0:
        return False
    Clock.tick()
    if empty_range(lits):
        return True
    # integer equalities, global
    for a, s in lits:
        if not s:
            continue
        if a[0] == 'ez':
            r = linear(a[1])
            if r is None:
                continue
            g, rep = r
            gg = T.C.gens[g]
            extra = cd.T
            if gg.lo is not None:
                extra = extra & cd.ge(rep - gg.lo)
            if gg.hi is not None:
                extra = extra & cd.ge(P(gg.hi) - rep)
            for u in gg.ub:
                extra = extra & cd.ge(u - rep)
            return apply(cd, lits, a, {g: rep}, None, extra, depth)
        if a[0] == 'z':
            m, q = a[1], a[2]
            g = q.single_gen()
            if g is not None and T.C.gmod.get(g.id) == m:
                return apply(cd, lits, a, {g.id: ZERO}, None, cd.T, depth)
            if not T.is_prime_mod(m) and m.const() is None:
                r = linear(q) if T.integral(q) else None
            else:
                r = linear(q, m)
            if r is None:
                continue
            g, rep = r
            return apply(cd, lits, a, {g: rep}, m, cd.T, depth)
    from . import algebra
    return algebra.contradiction(cd, lits, depth)


def empty_range(lits):
    """the bounds on some integer form leave no value, or only excluded ones"""
    lo, hi, ne = {}, {}, {}
    for a, s in lits:
        if a[0] not in ('ge', 'ez') or not all(type(v) is int for v in a[1].d.values()):
            continue
        c = a[1].d.get((), 0)
        q = a[1] - c
        if a[0] == 'ez':
            if not s:
                sg = T.content_sign(q) > 0
                ne.setdefault(q if sg else -q, set()).add(-c if sg else c)
        elif s and T.content_sign(q) > 0:
            lo[q] = max(lo.get(q, -c), -c)
        elif s:
            hi[-q] = min(hi.get(-q, c), c)
        elif T.content_sign(q) > 0:
            hi[q] = min(hi.get(q, -c - 1), -c - 1)
        else:
            lo[-q] = max(lo.get(-q, c + 1), c + 1)
    for q, l in lo.items():
        h = hi.get(q)
        if h is None:
            continue
        if l > h or h - l < 16 and all(v in ne.get(q, ()) for v in range(l, h + 1)):
            return True
    return False


def apply(cd, lits, used, mp, m, extra, depth):
    b = extra
    memo = {}
    for a, s in lits:
        if a == used:
            continue
        r = rebuild(cd, a, mp, m, memo)
        if r is None:
            r = cd.mgr.var(a)
        b = b & (r if s else ~r)
        if b.is_false():
            return True
    return refuted_in(cd, b, depth - 1)
