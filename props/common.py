"""Helpers shared by the property modules."""
import re
from engine import terms as T
from engine.terms import Poly, P, ZERO, ONE
from engine.values import *
from engine.values import Unsupported
from engine.world import World, program
from engine.bdd import Bdd
from engine import theory

FP, FPE = 'primefield::Fp', 'primefield::FpElt'
FP2, FP2E = 'quadraticfield::Fp2', 'quadraticfield::Fp2Elt'
RX_REF = re.compile(r"^&('\w+ )?(mut )?")


def base_ty(prog, t):
    """(type id without references, was a reference)"""
    ref = False
    while prog.types[t]['k'] == 'ref':
        t = prog.types[t]['e']
        ref = True
    return t, ref


class Form:
    __slots__ = ('fn', 'op', 'args', 'refs')

    def __init__(self, fn, op, args, refs):
        self.fn, self.op, self.args, self.refs = fn, op, args, refs

    def label(self):
        return '%s(%s)' % (self.op, ', '.join(('&' if r else '') + a for a, r in zip(self.args, self.refs)))


OPS = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Neg': 'neg', 'BitXor': 'bitxor',
       'AddAssign': 'add_assign', 'SubAssign': 'sub_assign', 'MulAssign': 'mul_assign', 'DivAssign': 'div_assign'}
RX_OP = re.compile(r'std::ops::(%s)(<.*)?>?( for .*)?>::(%s)$' % ('|'.join(OPS), '|'.join(OPS.values())))


def operators(prog):
    """every implementation of an arithmetic operator trait in the crate, by (op, operand types)"""
    out = {}
    for f in prog.crate_fns():
        if not f.blocks or '{closure' in f.name:
            continue
        m = RX_OP.search(f.name)
        if not m or OPS[m.group(1)] != m.group(4):
            continue
        tys = [base_ty(prog, t) for t in f.locals[1:f.argc + 1]]
        args = tuple(prog.tn[t] for t, _ in tys)
        out.setdefault((m.group(4).replace('_assign', ''),) + args, []).append(Form(f, m.group(4), args, tuple(r for _, r in tys)))
    return out


def collect(w, v, tid, st=None, seen=0):
    """every sub-value of type tid, in declaration order"""
    st = st or w.st
    out = []
    if seen > 12:
        return out
    if isinstance(v, Agg):
        if v.tag == tid:
            return [v]
        for x in v.f:
            out += collect(w, x, tid, st, seen + 1)
    elif isinstance(v, Seq):
        for x in v.e:
            out += collect(w, x, tid, st, seen + 1)
    elif isinstance(v, (Ptr, ArcV, BoxV)):
        pass
    return out


def field_of_type(w, v, tyname, st=None, which=0):
    """the value of the field of v whose declared type is tyname, possibly shared or boxed"""
    if isinstance(v, Un):
        return mkun([(g, field_of_type(w, x, tyname, st, which)) for g, x in v.alts], w.cd.mgr)
    if not isinstance(v, Agg) or not isinstance(v.tag, int):
        raise Unsupported('a struct with a field of type %s expected, got %r' % (tyname, v))
    ty = w.prog.types[v.tag]
    direct = [v.f[i] for i, (name, ft) in enumerate(ty['v'][0]['f']) if w.prog.tn[ft] == tyname]
    out = direct or [pointee(w, v.f[i], st) for i, (name, ft) in enumerate(ty['v'][0]['f'])
                     if w.prog.tn[ft].endswith('<%s>' % tyname)]
    if which < len(out):
        return out[which]
    raise Unsupported('%s has no field of type %s' % (w.prog.tn[v.tag], tyname))


def pointee(w, v, st=None):
    """what a shared or boxed value holds"""
    if isinstance(v, Un):
        return mkun([(g, pointee(w, x, st)) for g, x in v.alts], w.cd.mgr)
    if isinstance(v, (ArcV, BoxV)):
        return w.M.val(Ptr(v.obj), st or w.st)
    return v


BIGINT = 'num_bigint::BigInt'
BIGUINT = 'num_bigint::BigUint'


def num_of(w, v):
    """integer inside an element: its only integer leaf outside the handle of the field"""
    if isinstance(v, Un):
        return mkun([(g, num_of(w, x)) for g, x in v.alts], w.cd.mgr)
    return get_at(v, num_path(w, v))


def num_path(w, v):
    """positions leading to the integer of an element"""
    out = []

    def go(x, path):
        if isinstance(x, Poly) or isinstance(x, Un) and all(isinstance(y, Poly) for _, y in x.alts):
            out.append(path)
        elif isinstance(x, Agg) and not (isinstance(x.tag, int) and w.prog.tn[x.tag] == FP):
            for i, y in enumerate(x.f):
                go(y, path + (i,))
    go(v, ())
    if len(out) != 1:
        raise Unsupported('%d integers in %r' % (len(out), v))
    return out[0]


def get_at(v, path):
    for i in path:
        v = v.f[i]
    return v


def put_at(v, path, x):
    if not path:
        return x
    f = list(v.f)
    f[path[0]] = put_at(f[path[0]], path[1:], x)
    return Agg(v.tag, f)


def tn(w, name):
    t = w.prog.type_id(name)
    if t is None:
        raise Unsupported('no type %s' % name)
    return t


def args_for(w, form, vals, st):
    return [w.ref(v, st) if r else v for v, r in zip(vals, form.refs)]


def apply(w, form, vals, st):
    """what the operator gives: its result, or what it leaves in its first operand"""
    av = args_for(w, form, vals, st)
    v = w.run(form.fn, av, st)
    if v is not None and form.op.endswith('_assign'):
        v = w.M.val(av[0], st)
    return v


def same(w, a, b, pc):
    """a = b as integers whenever pc holds"""
    cond = w.cd.F
    for g, x in (a.alts if isinstance(a, Un) else ((w.cd.T, a),)):
        for g2, y in (b.alts if isinstance(b, Un) else ((w.cd.T, b),)):
            gg = g & g2
            if (gg & pc).is_false():
                continue
            if not isinstance(x, Poly) or not isinstance(y, Poly):
                continue
            cond = cond | (gg & w.cd.eq(x, y, pc & gg))
    return theory.valid(w.cd, cond, pc)


def reduced(w, x, m, pc):
    """0 <= x < m whenever pc holds"""
    if not isinstance(x, Poly):
        return False
    return T.in_range(x, m) or T.integral(x) and holds(w, w.cd.ge(x, pc) & w.cd.ge(m - 1 - x, pc), pc)


def holds(w, cond, pc):
    """cond holds whenever pc does"""
    return theory.valid(w.cd, cond, pc)


# --------------------------------------------------------------------- prime field
def mk_field(w, p, kind=FP):
    return w.run('redox_ecc::%s::new' % kind, [p])


def mk_elt(w, F, x, kind=FP, st=None):
    """element with residue x through Field::elt"""
    v = w.run('<redox_ecc::%s as redox_ecc::field::Field>::elt' % kind, [w.ref(F, st), P(x)], st)
    return v


def negation(ck, w, tyn, v, *args, st=None):
    """a redefined != has to be the negation of =="""
    f = w.prog.byname.get('<%s as std::cmp::PartialEq>::ne' % tyn)
    f = f[0] if isinstance(f, list) and f else f
    if f is None or f.crate != 'redox_ecc':
        return
    st = (st or w.st).copy()
    n = call(w, f, *args, st=st)
    ck.ob(isinstance(n, Bdd) and holds(w, n.iff(~v), st.pc), '!= is the negation of ==', '%r against %r' % (n, v))


def call(w, name, *args, st=None):
    """call by exact name, passing references where the function takes them"""
    st = st or w.st
    fn = w.by_name(name) if isinstance(name, str) else name
    if len(args) != fn.argc:
        raise Unsupported('%s takes %d arguments' % (fn.name, fn.argc))
    av = []
    for a, t in zip(args, fn.locals[1:]):
        k = w.prog.types[t]['k']
        if k == 'ref' and not isinstance(a, (Ptr, Str, StrV, SymStr)):
            a = w.ref(a, st)
        av.append(a)
    return w.run(fn, av, st)
