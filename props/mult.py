"""Scalar multiplication (C25) and powers in GF(p^2) (C10): loops summarised by inductive templates."""
from .common import *
from . import primef as PF
from . import curves as CV
from . import quad as QF
from . import scalar as SC
from . import groups as GR
from .primef import quiet, alts_of
from engine.loops import multiple_ok, Formal, Loops


def hook_bits(w, fam, k):
    """the bit iterators of a scalar, by their contract (C19, re-established by this check)"""
    L = w.M.bd.bits(k)
    for o in ('lr', 'rl'):
        fn = SC.iter_fn(w, fam, o)

        def h(I, fn, args, st, o=o):
            v = args[0]
            while isinstance(v, Ptr):
                v = I.read_loc(('m', v.obj, v.path, None), st)
            x = SC.sval(w, fam, v)
            it = IterV('bitsof', x, ZERO, w.M.bd.bits(x))
            return IterV('rev', it) if o == 'lr' else it
        w.I.hooks[fn.id] = h
        nx = SC.next_fn(w, fn.locals[0])
        if nx is not None:
            def step(I, fn, args, st):
                p = args[0]
                n = 0
                while isinstance(p, Ptr) and n < 4:
                    v = I.read_loc(('m', p.obj, p.path, None), st)
                    if not isinstance(v, Ptr):
                        break
                    p = v
                    n += 1
                if not isinstance(v, IterV) and not (isinstance(v, Un) and all(isinstance(x, IterV) for _, x in v.alts)):
                    return NotImplemented
                return I.models.lift_iter(p, st, fn.locals[0], False)
            w.I.hooks[nx.id] = step


def is_multiple(ck, w, G, v, want, st, key='value'):
    ck.need(v is not None, key + ': returns', '%r %s' % (w.I.panics, G.loops.notes))
    ok = True
    got = []
    for g, x in alts_of(w, v):
        if (g & st.pc).is_false():
            continue
        m = G.F.mult(x, st.pc & g)
        if m is None:
            raise Unsupported('a result that is not a formal multiple: %r' % (x,))
        got.append((g, m))
        ok = ok and multiple_ok(w.I, m, want, st.pc & g)
    ck.ob(ok, key, 'got %s, want %r' % ('; '.join('%r when %r' % (m, g) for g, m in got)[:600], want))


def c25(ck):
    """Formal multiples: the operations on points are replaced by the integer combinations they compute
    (decided here on the current source, for every class of operands), the bit iterators by their contract
    (C19), and the multiplication loops by inductive templates over the bits read so far."""
    prog = program()
    ops = operators(prog)
    SC.learn(ck)
    for fam in CV.FAMS:
        with ck.case(fam):
            for o in ('lr', 'rl'):
                with ck.case('bit iterator ' + o):
                    w = World()
                    r = SC.order(w)
                    it = SC.start_iter(w, fam, o, ZERO, r)
                    ck.need(it is not None, 'returns', w.I.panics)
                    SC.exhausted(ck, w, it, 'no item for zero')
                    quiet(ck, w)
                    SC.iterate(ck, fam, o, 'iter_' + o)
            contracts, fns = GR.classify_points(ck, fam)
            ident, test = GR.neutral_fns(ck, fam)
            ck.floor('group operations of ' + fam, len(contracts), 10)
            ck.floor('identity constructors of ' + fam, len(ident), 1)
            for fid, (co, _) in sorted(contracts.items()):
                ck.note('%s computes %s' % (fns[fid].name, ' + '.join('%s*arg%d' % (c, i) for i, c in enumerate(co))))
            sc, pt = SC.sty(fam), CV.POINT(fam)
            forms = ops.get(('mul', pt, sc), []) + ops.get(('mul', sc, pt), [])
            ck.floor('forms of point times scalar', len(ops.get(('mul', pt, sc), [])), 4)
            ck.floor('forms of scalar times point', len(ops.get(('mul', sc, pt), [])), 3)
            for fm in forms:
                for what in ('P', 'identity'):
                    w = World()
                    with ck.case('%s, %s' % (fm.label(), 'any point' if what == 'P' else 'the identity'), w):
                        C = CV.setup(w, fam)
                        G = GR.Group(w, C, contracts, ident, test)
                        r = C.prm['r']
                        k = w.residue('k', r)
                        s = SC.mk_scalar(w, fam, k, r)
                        hook_bits(w, fam, k)
                        pv = G.F.make(ONE if what == 'P' else ZERO)
                        st = w.fork()
                        vals = [pv, s] if fm.args[0] == pt else [s, pv]
                        v = apply(w, fm, vals, st)
                        is_multiple(ck, w, G, v, k if what == 'P' else ZERO, st, 'k copies of the point')
                        quiet(ck, w)
                        ck.count('loops summarised', G.loops.count)
    ck.assume('the completeness theorems stated for C22-C24')
    ck.rule('every operator form point x scalar returns the formal multiple k*P: loop slots are affine functions of '
            'the bits read so far (verified inductively), group operations are replaced by the combinations they compute')


def c10(ck):
    """Formal powers of one element of GF(p^2): products and inverses are replaced by the exponent arithmetic
    they compute (decided on the current source), loops over the words and bits of the exponent by templates."""
    prog = program()
    ops = operators(prog)
    contracts, fns = GR.classify_quad(ck)
    ones = GR.quad_ones(ck)
    ck.floor('multiplicative operations of GF(p^2)', len(contracts), 6)
    ck.floor('constructors of one', len(ones), 1)
    for fid, (co, _) in sorted(contracts.items()):
        ck.note('%s computes %s' % (fns[fid].name, ' * '.join('arg%d^%s' % (i, c) for i, c in enumerate(co))))
    for ety, n in ((BIGUINT, 1), (BIGINT, 1)):
        forms = ops.get(('bitxor', FP2E, ety), [])
        ck.floor('forms of Fp2Elt ^ %s' % ety, len(forms), n)
        for fm in forms:
            for what in ('e > 0', 'e = 0', 'e < 0'):
                if what == 'e < 0' and ety == BIGUINT:
                    continue
                for base in ('a power of x', 'one'):
                    w = World()
                    with ck.case('%s, %s, of %s' % (fm.label(), what, base), w):
                        p, F = QF.setup(w)
                        G = GR.Powers(w, p, F, contracts, ones)
                        a = T.sym('e', 1)
                        e = a if what == 'e > 0' else ZERO if what == 'e = 0' else -a
                        m = ONE if base != 'one' else ZERO
                        st = w.fork()
                        v = apply(w, fm, [G.F.make(m), e], st)
                        is_multiple(ck, w, G, v, m * e, st, 'the exponent of the result')
                        quiet(ck, w)
                        ck.count('loops summarised', G.loops.count)
    ck.assume('the product of GF(p^2) is associative and commutative and the inverse of zero is zero (C08, C09)')
    ck.rule('x^e is the formal power with exponent e, for every e: slots are affine functions of the part of |e| '
            'read so far (verified inductively)')
