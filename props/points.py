"""C21: every place that builds a point, or writes inside one, establishes the curve equation."""
import importlib
import re
from .common import *
from . import primef as PF
from . import curves as CV
from .primef import alts_of
from .curves import FAMS, POINT, CURVE, NAMES, CLASSES, cmeth, pmeth, mk_point, coord_alts

# functions whose complete behaviour (the returned point included) another analysis establishes
COVERED = [
    (r' as redox_ecc::ellipticcurve::Decode>::decode$', lambda fam: ('encode', 'c30' if fam == 'edwards' else 'c29')),
]


def place_inside(prog, f, place, tid):
    """does the place lie strictly inside a value of type tid"""
    cur = f.locals[place[0]]
    for e in place[1]:
        if cur == tid:
            return True
        if e == '*':
            cur = prog.types[cur].get('e') if cur is not None else None
        elif isinstance(e, list) and e[0] == 'f':
            cur = e[2]
        elif isinstance(e, list) and e[0] == 'dc':
            pass
        else:
            cur = prog.types[cur].get('e') if cur is not None else None
    return False


def sites(prog, tid):
    """[(function, span, what)] of constructions of, and writes inside, values of type tid"""
    out = []
    for f in prog.crate_fns():
        if not f.blocks or 'verif_witness' in f.name:
            continue
        for b in f.blocks:
            for s in b['s']:
                if isinstance(s[0], str):
                    continue
                dest, r = s[0], s[1]
                line = '%s:%s' % (f.span.split(':')[0], s[2] if len(s) > 2 else '?')
                if r[0] == 'agg' and r[1][0] == 'adt' and r[1][1] == tid:
                    out.append((f, line, 'builds'))
                if r[0] == 'ref' and len(r) > 2 and r[2] and place_inside(prog, f, r[1], tid):
                    out.append((f, line, 'borrows mutably inside'))
                if r[0] in ('addr', 'rawptr') and place_inside(prog, f, r[1], tid):
                    out.append((f, line, 'takes the address inside'))
                if place_inside(prog, f, dest, tid):
                    out.append((f, line, 'writes inside'))
            t = b['t']
            if t[0] == 'call' and place_inside(prog, f, t[3], tid):
                out.append((f, t[5], 'writes inside'))
    return out


def enclosing(prog, f):
    """the function a closure belongs to"""
    n = re.sub(r'::\{closure#\d+\}.*$', '', f.name)
    if n == f.name:
        return f
    l = [g for g in prog.byname.get(n, ()) if g.blocks]
    if len(l) != 1:
        raise Unsupported('%d functions enclose %s' % (len(l), f.name))
    return l[0]


def points_in(w, v, tid, st, guard=None):
    """[(guard, value)] of the values of type tid inside v"""
    g0 = w.cd.T if guard is None else guard
    out = []
    if isinstance(v, Un):
        for g, x in v.alts:
            if not (g0 & g & st.pc).is_false():
                out += points_in(w, x, tid, st, g0 & g)
    elif isinstance(v, Agg):
        if v.tag == tid:
            return [(g0, v)]
        for x in v.f:
            out += points_in(w, x, tid, st, g0)
    elif isinstance(v, EnumV):
        for g, i, fs in v.alts:
            if not (g0 & g & st.pc).is_false():
                for x in fs:
                    out += points_in(w, x, tid, st, g0 & g)
    elif isinstance(v, Seq):
        for x in v.e:
            out += points_in(w, x, tid, st, g0)
    elif isinstance(v, (BoxV, Ptr)):
        out += points_in(w, w.M.val(v, st), tid, st, g0)
    return out


def equations(ck, w, C, v, st, key):
    """every point inside v satisfies the equation of the curve it names"""
    ck.count('results', 1) if hasattr(ck, 'count') else None
    n = 0
    for g, pt in points_in(w, v, tn(w, POINT(C.fam)), st):
        n += 1
        bad = None
        for g2, c in coord_alts(w, C.fam, pt, st.pc & g):
            gg = g & g2
            if not all(reduced(w, x, C.p, st.pc & gg) for x in c.values()):
                bad = 'coordinates are not residues of the field: %s' % c
                break
            want = w.cd.T
            for q in C.equation({k: T.inner(x, C.p) for k, x in c.items()}):
                want = want & w.cd.zero(q, C.p)
            if not holds(w, want, st.pc & gg):
                bad = '(%s) may violate the equation' % ', '.join('%s = %s' % (k, str(x)[:120]) for k, x in c.items())
                break
        ck.ob(bad is None, key + ': satisfies the curve equation', bad or '')
        s0 = st.pc
        st.pc = s0 & g
        ck.ob(CV.on_same_curve(w, C, pt, st), key + ': names the given curve')
        st.pc = s0
    return n


def synth(w, C, f, classes):
    """arguments for f: an arbitrary curve, arbitrary field elements, valid points"""
    F = call(w, cmeth(C.fam, 'get_field'), C.E)
    args, muts = [], []
    it = iter(classes)
    for i, t in enumerate(f.locals[1:f.argc + 1]):
        b, isref = base_ty(w.prog, t)
        n = w.prog.tn[b]
        if n == CURVE(C.fam):
            v = C.E
        elif n == FPE:
            v = PF.mk_elt(w, F, w.residue('arg%d' % i, C.p))
        elif b == CV.proy(w, C.fam):
            v = CV.mk_coords(w, C.fam, F, {k: w.residue('arg%d%s' % (i, k), C.p) for k in NAMES[C.fam]})
        elif n == POINT(C.fam):
            v = mk_point(w, C, CV.of_class(w, C, next(it), 'p%d' % i))
        elif n == FP:
            v = F
        elif n == 'bool':
            v = w.cd.mgr.var(('b', 'arg%d' % i))
        elif n in ('usize', 'u32', 'u64'):
            v = T.sym('arg%d' % i, 0, 2 ** 32 - 1)
        elif n in (BIGINT, BIGUINT):
            v = T.sym('arg%d' % i, 0 if n == BIGUINT else None)
        else:
            raise Unsupported('an argument of type %s of %s' % (n, f.name))
        if isref:
            v = w.ref(v)
            if w.prog.types[t].get('mut', True):
                muts.append(v)
        args.append(v)
    return args, muts


def lends(prog, t, tid, seen=None):
    """can a value of type t give write access to anything but whole points"""
    seen = set() if seen is None else seen
    if t is None or t in seen or t == tid:
        return False
    seen.add(t)
    ty = prog.types[t]
    k = ty['k']
    if k in ('ref', 'ptr'):
        if re.match(r"^[&*]('\w+ )?mut ", prog.tn[t]) and ty['e'] != tid:
            return True
        return lends(prog, ty['e'], tid, seen)
    if k == 'adt':
        return any(lends(prog, x[1], tid, seen) for v in ty['v'] for x in v['f']) if ty['crate'] == 'redox_ecc' else \
            any(lends(prog, x, tid, seen) for x in ty['g'] if isinstance(x, int))
    if k in ('array', 'slice'):
        return lends(prog, ty['e'], tid, seen)
    if k == 'tuple':
        return any(lends(prog, x, tid, seen) for x in ty['f'])
    return k in ('dyn', 'closure')


def npoints(prog, f, fam):
    return sum(1 for t in f.locals[1:f.argc + 1] if prog.tn[base_ty(prog, t)[0]] == POINT(fam))


def combos(fam, n):
    out = [()]
    for _ in range(n):
        out = [c + (k,) for c in out for k in CLASSES[fam]]
    return out


def c21(ck):
    """Constructor-site analysis over the whole crate, each enclosing function then interpreted on arbitrary arguments."""
    prog = program()
    for fam in FAMS:
        tid = prog.type_id(POINT(fam))
        ck.ob(tid is not None, '%s: the point type exists' % fam)
        # nothing outside the crate can build or change a point
        for d, fl in prog.open:
            if d == 'redox_ecc::' + POINT(fam):
                ck.ob(False, '%s: fields of points are closed to other crates' % fam, 'field %s is public' % fl)
        opened = {d for d, _ in prog.open}
        ck.ob('redox_ecc::' + POINT(fam) not in opened, '%s: no public field' % fam)
        ss = sites(prog, tid)
        fns = {}
        for f, line, what in ss:
            fns.setdefault(enclosing(prog, f).id, (enclosing(prog, f), []))[1].append('%s %s' % (what, line))
        ck.floor('%s: functions that build or change points' % fam, len(fns), 2)
        for f, where in sorted(fns.values(), key=lambda x: x[0].name):
            ck.fn(f.name) if hasattr(ck, 'fn') else None
            cov = [h for rx, h in COVERED if re.search(rx, f.name)]
            if cov:
                mod, fn = cov[0](fam)
                with ck.case('%s %s' % (f.name, where[0])):
                    getattr(importlib.import_module('props.' + mod), fn)(ck)
                continue
            ck.ob(not lends(prog, f.locals[0], tid), '%s: %s keeps its borrows of point internals' % (fam, short(f.name)),
                  'returns a mutable reference into a point (%s)' % '; '.join(where[:3]))
            for cl in combos(fam, npoints(prog, f, fam)):
                w = World()
                with ck.case('%s: %s%s (%s)' % (fam, short(f.name), ' ' + '/'.join(cl) if cl else '', '; '.join(where[:3])), w):
                    C = CV.setup(w, fam) if cl else CV.Curve(w, fam)
                    args, muts = synth(w, C, f, cl)
                    w.take_panics()
                    v = w.run(f, args)
                    n = 0
                    if v is not None:
                        n = equations(ck, w, C, v, w.st, 'result')
                    for m in muts:
                        n += equations(ck, w, C, m, w.st, 'after the call')
                    ck.ob(v is None or n > 0 or no_point(prog, f, tid), 'accounts for the points it builds')
        offered(ck, fam)
    ck.rule('a value of the point type is built, or written inside, only in functions after which the coordinates '
            'satisfy the homogenised equation of the curve in the same value whenever the function returns')
    ck.assume('no unsafe code in the crate (checked by C15); the fields of points are not nameable outside it (checked)')


def short(n):
    return n.replace('redox_ecc::', '')


def no_point(prog, f, tid):
    return base_ty(prog, f.locals[0])[0] != tid


def offered(ck, fam):
    """construction from coordinates: refused exactly off the curve, and refused for elements of other fields"""
    w = World()
    with ck.case('%s: new_point on arbitrary coordinates' % fam, w):
        C = CV.Curve(w, fam)
        F = call(w, cmeth(fam, 'get_field'), C.E)
        x, y = w.residue('x', C.p), w.residue('y', C.p)
        c = {'x': x, 'y': y, 'z': ONE, 't': T.flat(x * y, C.p)}
        on = w.cd.T
        for q in C.equation(c):
            on = on & w.cd.zero(q, C.p)
        w.take_panics()
        pc = w.st.pc
        v = call(w, cmeth(fam, 'new_point'), C.E, PF.mk_elt(w, F, x), PF.mk_elt(w, F, y))
        bad = w.cd.F
        for p in w.take_panics():
            bad = bad | p.guard
        ck.ob(holds(w, bad, pc & ~on), 'off the curve: refused')
        ck.ob(holds(w, ~bad, pc & on), 'on the curve: accepted')
        ok = w.cd.F
        if v is not None:
            for g, cc in coord_alts(w, fam, v, w.st.pc):
                ok = ok | (g & w.cd.zero(cc['x'] - x * cc['z'], C.p) & w.cd.zero(cc['y'] - y * cc['z'], C.p) &
                           ~w.cd.zero(cc['z'], C.p))
        ck.ob(holds(w, ok, pc & on), 'on the curve: that point')
    for which in ('x', 'y', 'both'):
        w = World()
        with ck.case('%s: new_point, %s from another field' % (fam, which), w):
            C = CV.Curve(w, fam)
            F = call(w, cmeth(fam, 'get_field'), C.E)
            q = w.prime('q', 5)
            w.st.pc = w.st.pc & ~w.cd.eq(q, C.p)
            G = PF.mk_field(w, q)
            xe = PF.mk_elt(w, G if which != 'y' else F, w.residue('x', q if which != 'y' else C.p))
            ye = PF.mk_elt(w, G if which != 'x' else F, w.residue('y', q if which != 'x' else C.p))
            w.take_panics()
            pc = w.st.pc
            call(w, cmeth(fam, 'new_point'), C.E, xe, ye)
            bad = w.cd.F
            for p in w.take_panics():
                bad = bad | p.guard
            ck.ob(holds(w, bad, pc), 'refused')
