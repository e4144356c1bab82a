"""Contract of generator_RREF (codes.c)."""
import z3
from vcg import *
from harness import *
from common import *
from spec_monomial import H, lt, unit
from spec_codes import one, local_arrays, npad
import math127 as F

PIV = (('ghost', 'piv'), ())       # pivot column of a finished row
PROW = (('ghost', 'prow'), ())     # row of a flagged column
NXT = (('ghost', 'nxt'), ())       # all rows not yet reduced are zero in the columns before this one


def store_index(a):
    """index written last to a one dimensional array"""
    while not isinstance(a, Store):
        if isinstance(a, Annot):
            a = a.a
        elif isinstance(a, IteArr):
            raise Unsupported('conditional pivot flag')
        else:
            raise ShapeMismatch('pivot column is not flagged in the iteration')
    return a.idxs[0]


def u_rref(cfg):
    @unit(cfg, 'generator_RREF', 30000)
    def u(cfg, p, r):
        N, K = p.N, p.K
        ref = cfg.impl == 'ref'
        g, fl = H('G', 'values'), H('flags')
        D, O = {}, {}
        names = ('pivot_row', 'pivot_column') if ref else ('j', 'pivc')
        cells = lambda i, c: And(lt(i, K), lt(c, N))

        # ------------------------------------------------ outer loop: one pivot per iteration
        def flagged(L, c):
            return Eq(L.rd(fl, c), bv(1, 8))

        def inv_outer(L):
            i = z64(L.i)
            D.setdefault('H', None)

            def canonical(L, a, c):
                return Implies(cells(a, c), canon(L.rd(g, a, c)))

            def unitcols(L, a, c):
                if L is D.get('Lb'):
                    F.lem_one(L.ex.ctx, hs(a, D['c']))
                pr = L.rd(PROW, c)
                return Implies(And(cells(a, c), flagged(L, c)), L.rd(g, a, c) == Ite(a == pr, bv(1, 8), bv(0, 8)))

            def leading(L, a, c):
                return Implies(And(cells(a, c), lt(a, i), lt(c, L.rd(PIV, a))), L.rd(g, a, c) == 0)

            def tail(L, a, c):
                if L is D.get('Lb'):
                    F.lem_one(L.ex.ctx, hs(a, D['c']))
                return Implies(And(cells(a, c), Not(lt(a, i)), lt(c, L.st.mem[NXT])), L.rd(g, a, c) == 0)

            def rows(L, a):
                q = L.rd(PIV, a)
                return Implies(And(lt(a, i), lt(a, K)), And(lt(q, N), lt(q, L.st.mem[NXT]), flagged(L, q), L.rd(PROW, q) == a))

            def cols(L, c):
                a = L.rd(PROW, c)
                return Implies(lt(c, N), And(Or(L.rd(fl, c) == 0, flagged(L, c)),
                                             Implies(flagged(L, c), And(lt(a, i), L.rd(PIV, a) == c))))

            def order(L, a, b):
                if L is D.get('Lb') and a is not None:
                    hv = D['H']
                    L.ex.ctx.fact(Implies(hv.st.path, order(hv, a, b)))
                return Implies(And(lt(a, b), lt(b, i), lt(b, K)), lt(L.rd(PIV, a), L.rd(PIV, b)))
            nx = L.st.mem[NXT]
            return [('at least as many columns as rows done', And(z3.ULE(i, nx), z3.ULE(nx, I(N)))),
                    ('entries canonical', Forall(2, canonical, [(g, None)])),
                    ('pivot columns are unit vectors', Forall(2, unitcols, [(g, None)])),
                    ('rows start at their pivot', Forall(2, leading, [(g, None)])),
                    ('remaining rows are zero on the left', Forall(2, tail, [(g, None)])),
                    ('one flagged pivot per row', Forall(1, rows, [(PIV, None)])),
                    ('flags are exactly the pivots', Forall(1, cols, [(fl, None), (PROW, None)])),
                    ('pivots increase', Forall(2, order, [(PIV, lambda ix: None)]))]

        def at_head(L):
            D['H'], D['i'] = L, z64(L.i)
            c = L.ex.ctx
            a, b = z3.BitVec('rowA', 64), z3.BitVec('rowB', 64)

        def ghost(Lh, Lb):
            pc = z64(store_index(Lb.st.mem[fl]))
            i = z64(Lh.i)
            D['pc'], D['c'], D['Lb'] = pc, pc, Lb
            D['order'] = dict((a, b) for a, b in inv_outer(Lh))['pivots increase'].body
            Lb.st.mem[PIV] = Store(Lh.st.mem[PIV], [i], pc)
            Lb.st.mem[PROW] = Store(Lh.st.mem[PROW], [pc], i)
            Lb.st.mem[NXT] = arith('+', pc, I(1))

        # ------------------------------------------------ the matrix at the loop head
        def h(a, c):
            return D['H'].rd(g, a, c)

        def swp(a):
            """row of the head matrix found in row a after the exchange"""
            i, q = D['i'], D['p']
            return Ite(a == i, q, Ite(a == q, i, a))

        def hs(a, c):
            """h(swp(a), c), kept as a case distinction over plain reads"""
            i, q = D['i'], D['p']
            return Ite(a == i, h(q, c), Ite(a == q, h(i, c), h(a, c)))

        def row(c):
            return h(D['p'], c)

        def pivcol(L):
            return z64(L.var(names[1]))

        def sc():
            return F.inv(D['H'].ex.ctx, row(D['c']))

        def scaled(c):
            return F.mul(D['H'].ex.ctx, sc(), row(c))

        def reduced(a, c):
            ctx = D['H'].ex.ctx
            return F.submod(hs(a, c), F.mul(ctx, hs(a, D['c']), scaled(c)))

        def step(Lh, Lb):
            pc = D['pc']

            def b(L, a, c):
                D['c'] = pc
                return Implies(cells(a, c), L.rd(g, a, c) == Ite(a == D['i'], scaled(c), reduced(a, c)))
            return [('pivot is a nonzero entry of a remaining row', And(lt(D['p'], K), Not(lt(D['p'], D['i'])), lt(pc, N), h(D['p'], pc) != 0)),
                    ('row exchange, scaling and subtraction of multiples of the pivot row', Forall(2, b))]

        # ------------------------------------------------ pivot search
        def zeros(L, upto, extra):
            i = D['i']

            def b(L, a, c):
                return Implies(And(cells(a, c), Not(lt(a, i)), Or(lt(c, pivcol(L)), And(c == pivcol(L), lt(a, z64(L.var(names[0])))))), L.rd(g, a, c) == 0)
            return ('searched cells are zero', Forall(2, b, [(g, None)]))

        def search0(L):
            i, a, c = D['i'], z64(L.var(names[0])), pivcol(L)
            return [('search position', And(z3.ULE(i, a), lt(a, K), z3.ULE(i, c), z3.ULE(c, I(N)))), zeros(L, 0, 0)]

        def search0v(L):
            i, a, c = D['i'], z64(L.var(names[0])), pivcol(L)
            return [('search position', And(a == i, z3.ULE(i, c), z3.ULE(c, I(N)))), zeros(L, 0, 0)]

        def search1(L):
            i, a, c = D['i'], z64(L.var(names[0])), pivcol(L)
            return [('search position', And(z3.ULE(i, a), z3.ULE(a, I(K)), lt(c, N), z3.ULE(i, c))), zeros(L, 0, 0)]

        # ------------------------------------------------ reference: element loops
        def found(L):
            D['p'], D['c'] = z64(L.var(names[0])), pivcol(L)

        def swap(L):
            if ref:
                # inside swap_rows: the pivot position is in the caller's frame
                pass
            w = 1 if ref else 32

            def b(L, a, c):
                k = arith('*', z64(L.i), I(w))
                return Implies(cells(a, c), L.rd(g, a, c) == Ite(lt(c, k), hs(a, c), h(a, c)))
            return [('rows exchanged so far', Forall(2, b, [(g, None)]))]

        def rescale(L):
            def b(L, a, c):
                return Implies(cells(a, c), L.rd(g, a, c) == Ite(And(a == D['i'], lt(c, L.i)), scaled(c), hs(a, c)))
            return [('row scaled so far', Forall(2, b, [(g, None)]))]

        def elim_val(L, a, c, done):
            return Ite(a == D['i'], scaled(c), Ite(done, reduced(a, c), hs(a, c)))

        def elim(L):
            def b(L, a, c):
                return Implies(cells(a, c), L.rd(g, a, c) == elim_val(L, a, c, lt(a, L.i)))
            return [('rows reduced so far', Forall(2, b, [(g, None)]))]

        def elim_in(L):
            w = 1 if ref else 32

            def b(L, a, c):
                j = z64(L.ex.term(L.st, O['e']['ivar']))
                k = arith('*', z64(L.i), I(w))
                return Implies(cells(a, c), L.rd(g, a, c) == elim_val(L, a, c, Or(lt(a, j), And(a == j, lt(c, k)))))
            return [('rows reduced so far', Forall(2, b, [(g, None)]))]

        def elim_head(L):
            O['e'] = L.info

        # ------------------------------------------------ vector code: table of multiples
        def gm_id(L):
            """the row pointers are the rows: proved once, then used by value"""
            k = one([k for k in L.st.mem if isinstance(L.st.mem[k], PtrArr) and L.st.mem[k].static is not None and
                     L.st.mem[k].static[:2] == g], 'row pointer table')
            a = L.st.mem[k]
            sk = fresh(IDX, 'sk')
            s2 = L.st.copy()
            s2.path = And(L.st.path, lt(sk, K))
            L.ex.oblige(s2, 'row pointer r is row r', And(a.comps[0].read(L.ex.ctx, [sk]) == sk, a.comps[1].read(L.ex.ctx, [sk]) == 0), 'inv')
            L.st.mem[k] = PtrArr(1, a.static, [Lam(lambda c, ix: ix[0], 1, IDX), Const(I(0), 1)])

        def gm_init(L):
            k = one([k for k in L.st.mem if isinstance(L.st.mem[k], PtrArr) and L.local(k) and
                     L.ex.objty[k[0]].k == 'array' and L.ex.dim(L.ex.objty[k[0]].n, L.st, L.frame) == K], 'row pointer table')

            def b(L, x):
                a = L.st.mem[k]
                if a.static is None:
                    return Not(lt(x, L.i))
                return Implies(And(lt(x, K), lt(x, L.i)), And(a.comps[0].read(L.ex.ctx, [x]) == x, a.comps[1].read(L.ex.ctx, [x]) == 0))
            return [('row pointers set', Forall(1, b, [(k, None)]))]

        def em(L):
            return one([k for k in L.st.mem if L.local(k) and isinstance(L.st.mem[k], Arr) and
                        L.st.mem[k].nd == 2 and L.st.mem[k].w == 8], 'table of multiples')

        def ep(L):
            return one([k for k in L.st.mem if isinstance(L.st.mem[k], PtrArr) and L.local(k) and
                        L.ex.objty[k[0]].k == 'array' and L.ex.dim(L.ex.objty[k[0]].n, L.st, L.frame) == 128], 'table of pointers')

        def multiple(x, c):
            return F.mul(D['H'].ex.ctx, trunc(x, 8), row(c))

        def em_rows(L):
            e = em(L)

            def b(L, x, c):
                L.ex.ctx.fact(Implies(And(x == 1, canon(row(c))), multiple(x, c) == row(c)))
                return Implies(And(lt(c, N), lt(x, L.i), Not(lt(x, 1)), lt(x, 127)), L.rd(e, x, c) == multiple(x, c))
            return [('multiples so far', Forall(2, b, [(e, None)])), ('row', z3.UGE(z64(L.i), I(2)))]

        def em_cols(L):
            e = em(L)

            def b(L, x, c):
                j = z64(L.ex.term(L.st, O['m']['ivar']))
                k = arith('*', z64(L.i), I(32))
                ctx = L.ex.ctx
                F.lem_succ(ctx, trunc(arith('-', x, I(1)), 8), row(c))
                return Implies(And(lt(c, N), Or(lt(x, j), And(x == j, lt(c, k))), Not(lt(x, 1)), lt(x, 127)), L.rd(e, x, c) == multiple(x, c))
            return [('multiples so far', Forall(2, b, [(e, None)]))]

        def em_head(L):
            O['m'] = L.info

        def which(x):
            """the multiple that has value x in the pivot column"""
            return F.mul(D['H'].ex.ctx, trunc(x, 8), sc())

        def ep_inv(L):
            q = ep(L)
            ctx = L.ex.ctx
            j = z64(L.i)
            j8 = trunc(j, 8)
            s0 = row(D['c'])
            F.lem_succ(ctx, j8, s0)

            def b(L, x):
                a = L.st.mem[q]
                v = which(x)
                x8 = trunc(x, 8)
                # x = (x * inv s) * s and j = (j * s) * inv s
                F.lem_assoc(ctx, x8, sc(), s0)
                F.lem_assoc(ctx, j8, s0, sc())
                F.lem_one(ctx, x8)
                F.lem_one(ctx, j8)
                if D.get('jh') is not None:
                    F.lem_assoc(ctx, D['jh'], s0, sc())
                    F.lem_one(ctx, D['jh'])
                if a.static is None:
                    return Not(lt(x, 128))
                return Implies(And(lt(x, 127), Not(lt(x, 1)), lt(z64(v), j)), And(
                    a.comps[0].read(ctx, [x]) == z64(v), a.comps[1].read(ctx, [x]) == 0))
            t = L.var('tmp')
            return [('multiple of the pivot value', And(z3.ULE(I(1), j), z3.ULE(j, I(127)), Implies(lt(j, 127), t == F.mul(ctx, j8, s0)))),
                    ('pointers by value in the pivot column', Forall(1, b, [(q, None)]))]

        def ep_head(L):
            D['jh'] = trunc(z64(L.i), 8)
            ctx = L.ex.ctx
            F.lem_succ(ctx, D['jh'], row(D['c']))
            F.lem_assoc(ctx, D['jh'], row(D['c']), sc())
            F.lem_one(ctx, D['jh'])

        def velim_in(L):
            x = elim_in(L)
            b0 = x[0][1].body

            def b(L, a, c):
                ctx = L.ex.ctx
                j = z64(L.ex.term(L.st, O['e']['ivar']))
                m = hs(j, D['c'])
                q = bv(127, 8) - m
                F.lem_assoc(ctx, q, sc(), row(c))
                F.lem_negmul(ctx, hs(j, c), m, scaled(c))
                return b0(L, a, c)
            return [(x[0][0], Forall(2, b, [(g, None)]))]

        outer = LoopSpec(inv_outer, head=at_head, ghost=([PIV, PROW, NXT], ghost), step=step)
        if ref:
            loops = {(0,): outer, (0, 0): LoopSpec(search0), (0, 0, 0): LoopSpec(search1),
                     (0, 1): LoopSpec(swap), (0, 2): LoopSpec(rescale), (0, 3): LoopSpec(elim, entry=elim_head), (0, 3, 0): LoopSpec(elim_in)}
        else:
            outer.rewrite = gm_id
            loops = {(0,): LoopSpec(gm_init), (1,): outer, (1, 0): LoopSpec(search0v), (1, 0, 0): LoopSpec(search1),
                     (1, 1): LoopSpec(swap), (1, 2): LoopSpec(em_rows, entry=em_head), (1, 2, 0): LoopSpec(em_cols),
                     (1, 3): LoopSpec(ep_inv, head=ep_head), (1, 4): LoopSpec(elim, entry=elim_head), (1, 4, 0): LoopSpec(velim_in)}
        V = Verif(cfg, 'codes', 'generator_RREF', field_contracts(cfg), loops)
        # the pivot position is read where the pivot column is flagged
        V.ex.on_write = lambda lv, st, fr: (lv.obj, lv.path) == fl and (D.update(
            p=z64(V.ex.var(st, fr, names[0])), c=z64(V.ex.var(st, fr, names[1]))))
        G = V.obj('G', 'generator_mat_t')
        canonical_matrix(V, g, K, N)
        f = V.array('flags', 8, N if ref else npad(N))
        V.gen(fl, lambda c: V.st.mem[fl].f(c) == 0)
        V.st.mem[PIV], V.st.mem[PROW], V.st.mem[NXT] = Base('piv', 1, 64), Base('prow', 1, 64), I(0)
        V.ex.ghosts |= {PIV[0], PROW[0], NXT[0]}
        ret, st = V.call([G, f])
        rd = lambda rf, *i: V.rd(rf, *i, st=st)
        V.prove(st, 'verdict is 0 or 1', Or(ret == 0, ret == 1))
        ok, no = ret == 1, ret == 0
        V.forall(st, 'success: canonical, unit pivot columns, rows start at their pivot', lambda a, c: And(ok, cells(a, c)),
                 lambda a, c: And(canon(rd(g, a, c)), Implies(rd(fl, c) == 1, rd(g, a, c) == Ite(a == rd(PROW, c), bv(1, 8), bv(0, 8))),
                                  Implies(lt(c, rd(PIV, a)), rd(g, a, c) == 0)), 2)
        V.forall(st, 'success: flags and rows correspond one to one', lambda a, c: And(ok, cells(a, c)), lambda a, c: And(
            lt(rd(PIV, a), N), rd(fl, rd(PIV, a)) == 1, rd(PROW, rd(PIV, a)) == a,
            Or(rd(fl, c) == 0, And(rd(fl, c) == 1, lt(rd(PROW, c), K), rd(PIV, rd(PROW, c)) == c))), 2)
        V.forall(st, 'success: pivots increase', lambda a, b: And(ok, lt(a, b), lt(b, K)), lambda a, b: V.assume(
            Implies(D['H'].st.path, D['order'](D['H'], a, b))) or lt(rd(PIV, a), rd(PIV, b)), 2)
        V.forall(st, 'failure: an equivalent matrix has a zero row', lambda c: And(no, lt(c, N)),
                 lambda c: And(lt(D['i'], K), rd(g, D['i'], c) == 0))
        V.discharge(r)
    return u
