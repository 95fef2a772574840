"""Nonlinear reasoning on the atoms of one cube: reduction modulo the vanishing
polynomials, square classes."""
from fractions import Fraction
from . import terms as T
from .terms import Poly, P, ZERO, ONE


HUGE = 300        # polynomials with more terms than this are not rewritten


def contradiction(cd, lits, depth):
    from . import theory
    mods = {}
    for a, s in lits:
        if a[0] in ('z', 'sq', 'odd'):
            mods.setdefault(a[1], []).append((a, s))
    for m, ls in mods.items():
        if not T.is_prime_mod(m):
            continue
        zs = [a[2] for a, s in ls if a[0] == 'z' and s and len(a[2].d) <= 60]
        if zs:
            for basis in reducers(zs, m):
                for a, s in ls:
                    if a[0] != 'z' or s or len(a[2].d) > HUGE:
                        continue
                    r = reduce(a[2], [x[:2] for x in basis], m)
                    if not r.d:
                        return True
                # rewriting the remaining atoms may settle them
                b = cd.T
                ch = False
                for a, s in lits:
                    if a[0] in ('z', 'sq', 'odd') and a[1] == m and len(a[2].d) <= HUGE:
                        # an equality is rewritten by the others
                        q = reduce(a[2], [r[:2] for r in basis if not (a[0] == 'z' and s and r[2] == a[2])], m)
                        if q != a[2]:
                            ch = True
                            c = {'z': cd.zero, 'sq': cd.square, 'odd': cd.odd}[a[0]](q, m)
                            b = b & (c if s else ~c)
                            continue
                    v = cd.mgr.var(a)
                    b = b & (v if s else ~v)
                if ch and b.is_false():
                    return True
                if ch and theory.refuted_in(cd, b, depth - 1):
                    return True
        if squares(cd, m, ls):
            return True
    return False


def order_key(first):
    """monomial order: total degree in the preferred generators first, then lex"""
    def key(mm):
        d = dict(mm)
        return (d.get(first, 0), sum(d.values()), sorted(((g, e) for g, e in mm), reverse=True))
    return key


def reducers(zs, m):
    """rewriting systems made of the vanishing polynomials, a few monomial orders"""
    seen = set()
    gens = sorted({g for q in zs for g in q.gens()}, reverse=True)
    from .theory import unit_const
    for first in gens[:8] + [None]:
        key = order_key(first)
        rules = []
        for q in zs:
            lead = max((mm for mm in q.d if mm), key=key, default=None)
            if lead is None or not unit_const(q.d[lead], m):
                continue
            rep = (q - Poly({lead: q.d[lead]})).scale(Fraction(-1) / Fraction(q.d[lead]))
            rules.append((lead, rep, q))
        k = tuple((l, r) for l, r, _ in rules)
        if rules and k not in seen:
            seen.add(k)
            yield rules


def divides(l, mm):
    d = dict(mm)
    return all(d.get(g, 0) >= e for g, e in l)


def reduce(q, rules, m, limit=400):
    from .theory import Clock
    for _ in range(limit):
        Clock.tick()
        hit = None
        for l, rep in rules:
            for mm in q.d:
                if divides(l, mm):
                    hit = (l, rep, mm)
                    break
            if hit:
                break
        if hit is None:
            return q
        l, rep, _ = hit
        keep = {}
        acc = ZERO
        for mm, c in q.d.items():
            if divides(l, mm):
                d = dict(mm)
                for g, e in l:
                    d[g] -= e
                rest = tuple(sorted((g, e) for g, e in d.items() if e))
                acc = acc + Poly({rest: c}) * rep
            else:
                keep[mm] = c
        q = T.flat(Poly(keep) + acc, m)
        if len(q.d) > 1000:
            return q
    return q


def squares(cd, m, ls):
    return False
