"""Loops that repeat one step a number of times: counters and byte strings growing by a fixed byte.

The first abstract iteration proposes, for every memory slot that changes, what it is after t iterations
(a + d t for integers, t copies of one byte added at an end of a byte string) and the number N of iterations
(from the loop condition).  Both are then *verified*: an iteration from the proposed state at any t < N must
give the proposed state at t + 1 and must not leave the loop, and at t = N it must leave it."""
from . import terms as T
from .terms import Poly, P, ZERO, ONE
from .values import *
from .values import Unsupported
from .bytesdom import normal, as_bytes
from .loops import Step, differ, put, deep


def bytes_of(v):
    if isinstance(v, (Bytes, Seq)):
        try:
            return as_bytes(v)
        except Unsupported:
            return None
    return None


class Counting:
    def __init__(self, I):
        self.I, self.cd = I, I.cd
        self.fresh = 0

    def __call__(self, I, e, fr, entry, snap):
        head, body, comp = e

        def run(st):
            I.rollback(fr, snap)
            n0 = {b: len(l) for b, l in fr.pending.items()}
            r0, p0 = len(fr.rets), len(I.panics)
            I.exec_block(head, fr, st)
            I.process(body, fr)
            s = Step()
            l = fr.pending.pop(head, None)
            s.cont = I.join(l, fr, head) if l else None
            s.exits = [(b, x) for b, l in fr.pending.items() for x in l[n0.get(b, 0):]]
            s.rets = fr.rets[r0:]
            s.panics = I.panics[p0:]
            I.rollback(fr, snap)
            return s
        try:
            r = self.summary(run, entry)
        except Unsupported:
            r = None
        I.rollback(fr, snap)
        if r is None:
            return False
        for s in r:
            for b, x in s.exits:
                fr.pending.setdefault(b, []).append(x)
            I.panics.extend(s.panics)
        return True

    # ------------------------------------------------------------------
    def template(self, a, b):
        """function t -> value, or None"""
        if isinstance(a, Poly) and isinstance(b, Poly) and (b - a).const() is not None:
            d = (b - a).const()
            return lambda t: a + t.scale(d)
        x, y = bytes_of(a), bytes_of(b)
        if x is None or y is None:
            return None
        sx = list(x.segs)
        y = normal(list(y.segs))
        # the byte added at an end
        cands = {s[1] for s in y.segs if s[0] in ('b', 'rep')} | {ZERO}
        for c in cands:
            if normal([('b', c)] + sx) == y:
                return lambda t: normal([('rep', c, t)] + sx)
            if normal(sx + [('b', c)]) == y:
                return lambda t: normal(sx + [('rep', c, t)])
        return None

    def same(self, a, b, pc):
        if a == b:
            return True
        if isinstance(a, Poly) and isinstance(b, Poly):
            return self.I.models.bd.eqz(a - b, pc)
        x, y = bytes_of(a), bytes_of(b)
        if x is None or y is None:
            return False
        x, y = normal(list(x.segs)), normal(list(y.segs))
        return len(x.segs) == len(y.segs) and all(
            p[0] == q[0] and len(p) == len(q) and all(
                u == v or isinstance(u, Poly) and isinstance(v, Poly) and self.I.models.bd.eqz(u - v, pc)
                for u, v in zip(p[1:], q[1:])) for p, q in zip(x.segs, y.segs))

    def summary(self, run, entry):
        I, cd = self.I, self.cd
        s = run(entry.copy())
        if s.cont is None or s.rets or s.panics:
            return None
        slots = []
        for key, v0 in entry.mem.items():
            v1 = s.cont.mem.get(key)
            if v1 is None:
                continue
            for path, a, b in differ(v0, deep(I, v1, s.cont.pc)):
                f = self.template(a, b)
                if f is None:
                    return None
                slots.append((key, path, f))
        if not slots or not any(isinstance(bytes_of(f(ZERO)), Bytes) for _, _, f in slots):
            return None
        self.fresh += 1

        def place(t, pc):
            st = entry.copy()
            st.pc = st.pc & pc
            for key, path, f in slots:
                st.mem[key] = put(st.mem[key], path, f(t))
            return st
        t = T.sym('times#%d' % self.fresh, 0)
        s = run(place(t, cd.T))
        if s.cont is None:
            return None
        gid = t.single_gen().id
        Ns = []
        for v in s.cont.pc.support():
            a = cd.mgr.atoms[v]
            if a[0] == 'ge' and T.depends(a[1], {gid}):
                for q in (a[1], -a[1] - 1):
                    r = q + t
                    if not T.depends(r, {gid}) and r + 1 not in Ns:
                        Ns.append(r + 1)        # continue while q >= 0
        for N in Ns:
            enter = cd.ge(N - 1, entry.pc)
            u = T.sym('times#%d.%d' % (self.fresh, len(Ns)), 0, ub=(N - 1,))
            s = run(place(u, enter))
            if s.exits or s.rets or s.panics or s.cont is None:
                continue
            want = place(u + 1, enter)
            ok = all(key in s.cont.mem for key, _, _ in slots)
            for key, v0 in want.mem.items():
                v1 = s.cont.mem.get(key)
                if ok and v1 is not None:
                    ok = all(self.same(x, y, s.cont.pc) for _, x, y in differ(v0, deep(I, v1, s.cont.pc)))
            if not ok:
                continue
            # N iterations when N >= 1, otherwise none
            out = []
            last = cd.ge(N, entry.pc)
            for m, pc in ((N, last), (ZERO, ~last)):
                if (entry.pc & pc).is_false():
                    continue
                s = run(place(m, pc))
                if s.cont is not None or s.rets:
                    out = None
                    break
                out.append(s)
            if out:
                return out
        return None
