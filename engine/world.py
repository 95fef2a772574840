"""One analysis session: program, interpreter, entry helpers."""
from . import terms as T
from .terms import Poly, P, ZERO, ONE
from .values import *
from .values import Unsupported
from .interp import Interp, State
from .bdd import Bdd
from . import dump

_PROG = None


def program():
    global _PROG
    if _PROG is None:
        _PROG = dump.load()
    return _PROG


class World:
    def __init__(self, prog=None):
        T.reset()
        self.prog = prog or program()
        self.I = Interp(self.prog)
        self.cd = self.I.cd
        self.M = self.I.models
        self.st = self.I.start()
        for n, s in self.prog.statics.items():
            if s['v'] is not None:
                try:
                    self.I.constval[('static', n)] = self.I.const(s['v'])
                except Unsupported:
                    pass

    # ---------------------------------------------------------------- calling
    def fn(self, rx):
        return self.prog.one(rx)

    def by_name(self, name):
        l = [f for f in self.prog.byname.get(name, ()) if f.blocks]
        if len(l) != 1:
            raise KeyError('%d functions named %s' % (len(l), name))
        return l[0]

    def ret_ty(self, fn):
        return fn.locals[0]

    def ref(self, v, st=None):
        return Ptr(self.I.alloc(st or self.st, v, 'in'))

    def run(self, fn, args, st=None):
        """returns (value or None, state); panics accumulate in self.I.panics"""
        st = st or self.st
        if isinstance(fn, str):
            fn = self.by_name(fn)
        self.I.frames = []
        v = self.I.call_fn(fn, list(args), st, self.ret_ty(fn))
        return v

    def fork(self, st=None):
        return (st or self.st).copy()

    def take_panics(self):
        p = self.I.panics
        self.I.panics = []
        return p

    # ---------------------------------------------------------------- symbols
    def prime(self, name='p', minimum=3, odd=True, residue=None):
        p = T.sym(name, lo=minimum)
        T.C.primes[p] = {'odd': odd, 'min': minimum}
        if residue:
            T.C.residues[p.single_gen().id] = (residue[1], residue[0])
        elif odd:
            T.C.residues[p.single_gen().id] = (2, 1)
        return p

    def residue(self, name, m):
        x = T.sym(name, lo=0, ub=(m - 1,))
        T.C.gmod[x.single_gen().id] = m
        return x

    def value(self, v, st=None):
        return self.M.val(v, st or self.st)
