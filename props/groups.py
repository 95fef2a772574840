"""Contracts of the group operations of points (and of the multiplicative group of GF(p^2)),
decided on the current source, for use by the loop analysis (C25, C10)."""
import time
from .common import *
from . import primef as PF
from . import curves as CV
from . import quad as QF
from .primef import alts_of
from engine.loops import Formal, Loops, put as putpath, get as getpath


def item_fns(prog, tname):
    """(fn, number of arguments of the type, target) for every crate function over values of one type:
    T.. -> T, or &mut T, T.. -> ()"""
    out = []
    for f in prog.crate_fns():
        if not f.blocks or f.kind != 'item' or '{closure' in f.name or not 1 <= f.argc <= 2:
            continue
        if any(prog.tn[base_ty(prog, t)[0]] != tname for t in f.locals[1:f.argc + 1]):
            continue
        rt = f.locals[0]
        muts = [i for i, t in enumerate(f.locals[1:f.argc + 1])
                if prog.types[t]['k'] == 'ref' and prog.tn[t].replace("&'_ ", '&').startswith('&mut')]
        if prog.tn[rt] == tname and not muts:
            out.append((f, f.argc, None))
        elif prog.types[rt]['k'] == 'tuple' and not prog.types[rt].get('f') and muts == [0]:
            out.append((f, f.argc, 0))
    return out


def pass_args(w, f, vals, st):
    return [w.ref(v, st) if w.prog.types[t]['k'] == 'ref' else v for v, t in zip(vals, f.locals[1:])]


def result(w, f, vals, target):
    st = w.fork()
    av = pass_args(w, f, vals, st)
    v = w.run(f, av, st)
    if v is None or w.I.panics:
        return None, st
    if target is not None:
        v = w.value(av[target], st)
    return v, st


# ------------------------------------------------------------------ points
def point_ok(w, C, v, want, st):
    """v is the projective point `want`, on the curve C"""
    ok = w.cd.F
    for g, c in CV.coord_alts(w, C.fam, v, st.pc):
        if not all(reduced(w, x, C.p, st.pc & g) for x in c.values()):
            continue
        cc = {k: T.inner(x, C.p) for k, x in c.items()}
        good = g & CV.same_point(w, C, cc, want, st.pc & g)
        if C.fam == 'edwards':
            good = good & w.cd.zero(P(cc['x']) * cc['y'] - P(cc['t']) * cc['z'], C.p) & ~w.cd.zero(cc['z'], C.p)
        ok = ok | good
    return holds(w, ok, st.pc) and CV.on_same_curve(w, C, v, st)


def operand_cases(fam, n):
    cl = CV.CLASSES[fam]
    if n == 1:
        return [(c,) for c in cl]
    return [(a, b) for a in cl for b in cl] + [('finite', 'same')]


def unary_want(w, C, c, P1):
    if c == 0:
        return CV.identity(w, C, 9, False)
    if c == 1:
        return P1
    if c == -1:
        return CV.negate(C, P1)
    return CV.law(C, P1, P1)


UN = (1, -1, 2, 0)
BI = ((1, 1), (1, -1), (-1, 1), (1, 0), (0, 1))


def sample(fam, p=10007):
    """parameters and two points of one concrete curve, used only to discard wrong candidates quickly"""
    sq = {}
    for y in range(p):
        sq.setdefault(y * y % p, y)
    nonsq = next(x for x in range(2, p) if x not in sq)
    pts = []
    if fam == 'edwards':
        prm = {'a': 4, 'd': nonsq}
    elif fam == 'montgomery':
        prm = {'a': 5, 'b': 1, 's': 77}
    else:
        prm = {'a': 3, 'b': 11}
    x = 17
    while len(pts) < 2:
        x += 6
        if fam == 'edwards':
            y2 = (1 - prm['a'] * x * x) * pow(1 - prm['d'] * x * x, -1, p) % p
        elif fam == 'montgomery':
            y2 = (x ** 3 + prm['a'] * x * x + x) % p
        else:
            y2 = (x ** 3 + prm['a'] * x + prm['b']) % p
        if y2 and y2 in sq:
            z = 5 + len(pts)
            c = {'x': x * z % p, 'y': sq[y2] * z % p, 'z': z}
            if fam == 'edwards':
                c['t'] = x * sq[y2] * z % p
            pts.append(c)
    return p, prm, pts


def proportional(a, b, p):
    ks = list(b)
    if not any(a[k] % p for k in ks):
        return False
    return all((a[k] * b[l] - a[l] * b[k]) % p == 0 for k in ks for l in ks)


def plausible(fam, fns):
    """the candidates that agree with the function on the sample points"""
    w = World()
    p, prm, pts = sample(fam)
    C = CV.Curve(w, fam, p=P(p), **prm)
    T.C.primes[P(p)] = {'odd': True, 'min': p}
    wc = [{k: P(v) for k, v in c.items()} for c in pts]
    vals = [CV.mk_point(w, C, c) for c in wc]
    w.take_panics()
    ints = lambda c: {k: int(P(v).const()) for k, v in c.items()}
    out = {}
    for f, n, target in fns:
        out[f.id] = set()
        try:
            v, st = result(w, f, vals[:n], target)
            if v is None:
                continue
            c = ints(CV.coord_alts(w, fam, v, st.pc)[0][1])
            for co in (UN if n == 1 else BI):
                want = unary_want(w, C, co, wc[0]) if n == 1 else combination(C, co, wc)
                if proportional(c, ints(want), p):
                    out[f.id].add(co)
        except (Unsupported, TypeError):
            pass
        finally:
            w.take_panics()
            w.I.frames = []
    return out


def combination(C, c, Ps):
    if 0 in c:
        return Ps[c.index(1)]
    return CV.law(C, *[P1 if k == 1 else CV.negate(C, P1) for k, P1 in zip(c, Ps)])


def classify_points(ck, fam):
    """function id -> (coefficients, target) for the functions of the point type that compute an integer
    combination of their operands for all operands (every class, every scaling)"""
    prog = program()
    fns = item_fns(prog, CV.POINT(fam))
    cand = plausible(fam, fns)
    for n in (1, 2):
        for cs in operand_cases(fam, n):
            w = World()
            with ck.case('contracts: ' + ' '.join(cs), w):
                C = CV.setup(w, fam)
                P1 = CV.of_class(w, C, cs[0], 1)
                Ps = [P1]
                if n == 2:
                    if cs[1] == 'same':
                        s = w.residue('s2', C.p)
                        T.C.nonzero.setdefault(C.p, set()).add(s.single_gen().id)
                        Ps.append({k: T.mod(P(v) * s, C.p) for k, v in P1.items()})
                    else:
                        Ps.append(CV.of_class(w, C, cs[1], 2))
                vals = [CV.mk_point(w, C, c) for c in Ps]
                w.take_panics()
                wants = {}
                for c in (UN if n == 1 else BI):
                    wants[c] = unary_want(w, C, c, P1) if n == 1 else combination(C, c, Ps)
                for f, k, target in fns:
                    if k != n or not cand[f.id]:
                        continue
                    t0 = time.time()
                    try:
                        base = w.cd.T
                        for c in cand[f.id]:
                            base = base & CV.nowhere_zero(w, C, wants[c])
                        w.st.pc = base
                        v, st = result(w, f, vals, target)
                        w.take_panics()
                        w.st.pc = w.cd.T
                        if v is None:
                            cand[f.id] = set()
                            continue
                        cand[f.id] = {c for c in cand[f.id] if point_ok(w, C, v, wants[c], st)}
                    except Unsupported:
                        w.take_panics()
                        w.st.pc = w.cd.T
                        cand[f.id] = set()
                    if ck.log:
                        print('     %.1fs %s %s' % (time.time() - t0, f.name, cand[f.id]))
    out = {}
    for f, n, target in fns:
        if len(cand[f.id]) == 1:
            c = next(iter(cand[f.id]))
            out[f.id] = ((c,) if n == 1 else c, target)
    return out, {f.id: f for f, _, _ in fns}


def neutral_fns(ck, fam):
    """functions returning the identity of a curve and tests for the identity"""
    prog = program()
    ident, test = [], []
    cty, pty = CV.CURVE(fam), CV.POINT(fam)
    for f in prog.crate_fns():
        if not f.blocks or f.kind != 'item' or f.argc != 1 or '{closure' in f.name:
            continue
        at = prog.tn[base_ty(prog, f.locals[1])[0]]
        if at == cty and prog.tn[f.locals[0]] == pty:
            w = World()
            with ck.case('contract: ' + f.name, w):
                C = CV.setup(w, fam)
                E = C.E
                try:
                    v, st = result(w, f, [E], None)
                    if v is not None and point_ok(w, C, v, CV.identity(w, C, 9, False), st):
                        ident.append(f)
                except Unsupported:
                    pass
                w.take_panics()
        elif at == pty and prog.types[f.locals[0]]['k'] == 'bool' and f.name.endswith('::is_zero'):
            ok = True
            for cl in ('finite', 'infinity'):
                w = World()
                with ck.case('contract: ' + f.name, w):
                    C = CV.setup(w, fam)
                    P1 = CV.of_class(w, C, cl, 1) if cl == 'finite' or 'infinity' in CV.CLASSES[fam] \
                        else CV.identity(w, C, 1)
                    pv = CV.mk_point(w, C, P1)
                    w.take_panics()
                    v, st = result(w, f, [pv], None)
                    w.take_panics()
                    if cl == 'infinity':
                        ok = ok and isinstance(v, Bdd) and holds(w, v, st.pc)
                    elif C.fam == 'edwards':
                        z = w.cd.zero(P1['x'], C.p) & w.cd.zero(P1['y'] - P1['z'], C.p)
                        ok = ok and isinstance(v, Bdd) and holds(w, v.iff(z), st.pc)
                    else:
                        ok = ok and isinstance(v, Bdd) and holds(w, ~v, st.pc)
            if ok:
                test.append(f)
    return ident, test


def point_parts(w, C, a, b):
    """positions of the fields of a point that depend on the element"""
    return [(i,) for i, (x, y) in enumerate(zip(a.f, b.f)) if x != y]


class Group:
    """formal multiples of a point of the curve C in the world w"""

    def __init__(self, w, C, contracts, ident, test):
        self.w, self.C = w, C
        p1, p2 = CV.mk_point(w, C, CV.affine(w, C, 71)), CV.mk_point(w, C, CV.affine(w, C, 72))
        self.F = Formal(w.I, p1, point_parts(w, C, p1, p2))
        for fid, (co, target) in contracts.items():
            w.I.hooks[fid] = self.F.contract(co, target)
        for f in ident:
            w.I.hooks[f.id] = self.F.constant(0, lambda args, st: self.F.value(args[0], st) == C.E)
        for f in test:
            w.I.hooks[f.id] = self.F.neutral_test()
        self.loops = Loops(w.I)
        w.take_panics()


# ------------------------------------------------------------------ GF(p^2)
def classify_quad(ck):
    """function id -> (coefficients, target): products of integer powers of the operands"""
    prog = program()
    fns = item_fns(prog, FP2E)
    # discard wrong candidates on one concrete pair
    p = 10007
    w = World()
    pp, F = P(p), None
    T.C.primes[pp] = {'odd': True, 'min': p}
    F = QF.mkq(w, pp)
    xs = [(123, 4567), (89, 1011)]
    vals = [QF.mk(w, F, P(a), P(b)) for a, b in xs]
    mulc = lambda x, y: ((x[0] * y[0] - x[1] * y[1]) % p, (x[0] * y[1] + x[1] * y[0]) % p)

    def powc(x, e):
        if e < 0:
            n = pow(x[0] * x[0] + x[1] * x[1], -1, p)
            x, e = (x[0] * n % p, -x[1] * n % p), -e
        r = (1, 0)
        for _ in range(e):
            r = mulc(r, x)
        return r
    un, bi = (1, -1, 2, 0), ((1, 1), (1, -1), (-1, 1), (1, 0), (0, 1))
    cand = {}
    for f, n, target in fns:
        cand[f.id] = set()
        try:
            v, st = result(w, f, vals[:n], target)
            if v is None:
                continue
            c = tuple(int(x.const()) for x in QF.comps(w, v))
            for co in (un if n == 1 else bi):
                want = powc(xs[0], co) if n == 1 else mulc(powc(xs[0], co[0]), powc(xs[1], co[1]))
                if want == c:
                    cand[f.id].add(co)
        except (Unsupported, TypeError, AttributeError):
            pass
        finally:
            w.take_panics()
            w.I.frames = []
    for zero in (False, True):
        for n in (1, 2):
            w = World()
            with ck.case('contracts on %d operands%s' % (n, ', zero' if zero else ''), w):
                p, F = QF.setup(w)
                xs = [(w.residue('a%d' % i, p), w.residue('b%d' % i, p)) for i in range(n)]
                if zero:
                    xs = [(ZERO, ZERO) for _ in xs]
                else:
                    for a, b in xs:
                        w.cd.declare_nonzero(a * a + b * b, p)
                vals = [QF.mk(w, F, a, b) for a, b in xs]
                w.take_panics()
                for f, k, target in fns:
                    if k != n:
                        continue
                    ok = set()
                    for co in cand[f.id]:
                        try:
                            v, st = result(w, f, vals, target)
                            if v is not None and quad_ok(w, v, xs, (co,) if n == 1 else co, p, F, st, zero):
                                ok.add(co)
                        except Unsupported:
                            pass
                        finally:
                            w.take_panics()
                            w.I.frames = []
                    cand[f.id] = ok
    out = {}
    for f, n, target in fns:
        if len(cand[f.id]) == 1:
            c = next(iter(cand[f.id]))
            out[f.id] = ((c,) if n == 1 else c, target)
    return out, {f.id: f for f, _, _ in fns}


def quad_ok(w, v, xs, co, p, F, st, zero):
    """v = product of the powers; 1/x stands for an unknown u with u * x = 1"""
    c = QF.comps(w, v)
    if not QF.sameq(w, v, F, st):
        return False
    mul = lambda x, y: (x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0])
    num, den = (ONE, ZERO), (ONE, ZERO)
    for x, e in zip(xs, co):
        for _ in range(abs(e)):
            if e > 0:
                num = mul(num, x)
            else:
                den = mul(den, x)
    if zero and any(e < 0 for e in co):
        num, den = (ZERO, ZERO), (ONE, ZERO)        # the inverse of zero is zero
    for g0, a in alts_of(w, c[0]):
        for g1, b in alts_of(w, c[1]):
            gg = st.pc & g0 & g1
            if gg.is_false():
                continue
            if not (reduced(w, a, p, gg) and reduced(w, b, p, gg)):
                return False
            l = mul((a, b), den)
            if not holds(w, w.cd.zero(l[0] - num[0], p) & w.cd.zero(l[1] - num[1], p), gg):
                return False
    return True


def quad_ones(ck):
    """functions returning the multiplicative identity of a field given by value or reference"""
    prog = program()
    out = []
    for f in prog.crate_fns():
        if not f.blocks or f.kind != 'item' or f.argc != 1 or '{closure' in f.name:
            continue
        if prog.tn[base_ty(prog, f.locals[1])[0]] == FP2 and prog.tn[f.locals[0]] == FP2E:
            w = World()
            with ck.case('contract: ' + f.name, w):
                p, F = QF.setup(w)
                try:
                    v, st = result(w, f, [F], None)
                    if v is not None and quad_ok(w, v, [], (), p, F, st, False):
                        out.append(f)
                except Unsupported:
                    pass
                w.take_panics()
    return out


class Powers:
    """formal powers of an element of GF(p^2) in the world w"""

    def __init__(self, w, p, F, contracts, ones):
        self.w = w
        a = QF.mk(w, F, w.residue('x71', p), w.residue('x72', p))
        b = QF.mk(w, F, w.residue('x73', p), w.residue('x74', p))
        self.F = Formal(w.I, a, [(i,) for i, (x, y) in enumerate(zip(a.f, b.f)) if x != y])
        for fid, (co, target) in contracts.items():
            w.I.hooks[fid] = self.F.contract(co, target)
        for f in ones:
            w.I.hooks[f.id] = self.F.constant(0, lambda args, st: self.F.value(args[0], st) == F)
        self.loops = Loops(w.I)
        w.take_panics()
