"""Callee contracts used in place of bodies that another property decides (modular reasoning)."""
from .common import *
from .primef import alts_of

SQ = '<redox_ecc::primefield::FpElt as redox_ecc::field::Sqrt>::'


def elt_parts(w, v):
    """[(guard, value, integer)] of a prime-field element"""
    out = []
    for g, x in alts_of(w, v):
        for g2, n in alts_of(w, num_of(w, x)):
            gg = g & g2
            if not gg.is_false():
                out.append((gg, x, n))
    return out


def set_num(w, x, n):
    return put_at(x, num_path(w, x), n)


def square_roots(w, m):
    """C05: is_square(x) <=> x is a square; sqrt(x)^2 = x for a square x, in the field of x, canonical"""
    used = set()

    def is_square(I, fn, args, st):
        used.add('is_square')
        r = w.cd.F
        for g, x, n in elt_parts(w, w.M.val(args[0], st)):
            if (g & st.pc).is_false():
                continue
            r = r | (g & w.cd.square(T.inner(n, m), m))
        return r

    def sqrt(I, fn, args, st):
        used.add('sqrt')
        out = []
        for g, x, n in elt_parts(w, w.M.val(args[0], st)):
            if (g & st.pc).is_false():
                continue
            out.append((g, set_num(w, x, T.root(T.inner(n, m), m))))
        return mkun(out, w.cd.mgr)
    w.I.hooks[w.by_name(SQ + 'is_square').id] = is_square
    w.I.hooks[w.by_name(SQ + 'sqrt').id] = sqrt
    return used


def parity(w, left, lsq, right, rsq, m, pc):
    """lemma: left... * (lsq...)^2 = right... * (rsq...)^2 modulo m with lsq, rsq nonzero (polynomial identities checked under
    pc): the condition that the number of non-squares among all the factors is even unless one vanishes, or None
    when the identity cannot be established"""
    a = b = ONE
    nz = w.cd.T
    for q in lsq:
        a = a * q * q
        nz = nz & ~w.cd.zero(q, m)
    for q in rsq:
        b = b * q * q
        nz = nz & ~w.cd.zero(q, m)
    for q in left:
        a = T.flat(a * q, m)
    for q in right:
        b = T.flat(b * q, m)
    if not holds(w, w.cd.zero(a - b, m) & nz, pc):
        return None
    z, ev = w.cd.F, w.cd.T
    for q in list(left) + list(right):
        z = z | w.cd.zero(q, m)
        ev = ev.iff(w.cd.square(q, m))
    return z | ev
