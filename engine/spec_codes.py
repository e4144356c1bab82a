"""Contracts of codes.c: monomial action on generators, compact forms, normalisation,
   applying an action, row reduction, sorting, the commitment object."""
import z3
from vcg import *
from harness import *
from common import *
from intrin import Lanes
import math127 as F
from spec_monomial import H, lt, unit


def local_arrays(L, w=8, nd=1, used=None):
    """byte arrays that are local variables of the frame"""
    return [k for k in L.st.mem if L.local(k) and isinstance(k[0][1], str) and
            isinstance(L.st.mem[k], Arr) and L.st.mem[k].w == w and L.st.mem[k].nd == nd and
            L.ex.objty[k[0]].k == 'array' and L.ex.objty[k[0]].to.k == 'bv']


def one(xs, what):
    if len(xs) != 1:
        raise ShapeMismatch(f'expected one {what}, found {len(xs)}')
    return xs[0]


# ------------------------------------------------------------------ C07
def gmm(fname):
    """ref: column by column or row by row; avx2: row by row through a buffer"""
    def body(order):
        def u(cfg, p, r):
            N, K = p.N, p.K
            RES, G = H('res', 'values'), H('G', 'values')
            D, O = {}, {}
            rng = lambda row, j: And(lt(row, K), lt(j, N))

            def val(L, row, j):
                s = z64(D['s'].read(L.ex.ctx, [j]))
                return s, L.rd(RES, row, j) == F.mul(L.ex.ctx, L.rd(G, row, s), L.rd(D['c'], s))
            if order == 'columns':
                def outer(L):
                    def b(L, row, j):
                        s, v = val(L, row, j)
                        return Implies(And(rng(row, j), lt(s, L.i)), v)
                    return [('columns placed', Forall(2, b, [(RES, None)]))]

                def inner(L):
                    def b(L, row, j):
                        s, v = val(L, row, j)
                        so = z64(L.ex.term(L.st, O['o']['ivar']))
                        return Implies(And(rng(row, j), Or(lt(s, so), And(s == so, lt(row, L.i)))), v)
                    return [('columns placed', Forall(2, b, [(RES, None)]))]
                loops = {(0,): LoopSpec(outer, entry=lambda L: O.update(o=L.info)), (0, 0): LoopSpec(inner)}
            else:
                def outer(L):
                    def b(L, row, j):
                        s, v = val(L, row, j)
                        return Implies(And(rng(row, j), lt(row, L.i)), v)
                    return [('rows placed', Forall(2, b, [(RES, None)]))]

                def chunk(L):
                    buf = O['buf'] = one(local_arrays(L), 'row buffer')
                    row = z64(L.ex.term(L.st, O['o']['ivar']))
                    iv = L.ex.term(L.st, L.info['ivar'])

                    def b(L, j):
                        return Implies(And(lt(j, N), lt(j, z64(L.ex.term(L.st, L.info['ivar'])))),
                                       L.rd(buf, j) == F.mul(L.ex.ctx, L.rd(G, z64(L.ex.term(L.st, O['o']['ivar'])), j), L.rd(D['c'], j)))
                    return [('buffer holds the scaled row', Forall(1, b, [(buf, None)]))]

                def scatter(L):
                    def b(L, row, j):
                        s, v = val(L, row, j)
                        ro = z64(L.ex.term(L.st, O['o']['ivar']))
                        return Implies(And(rng(row, j), Or(lt(row, ro), And(row == ro, lt(s, L.i)))), v)
                    return [('rows placed', Forall(2, b, [(RES, None)]))]
                loops = {(0,): LoopSpec(outer, entry=lambda L: O.update(o=L.info))}
                loops.update({(0, 0): LoopSpec(scatter)} if order == 'rows' else {(0, 0): LoopSpec(chunk), (0, 1): LoopSpec(scatter)})
            V = Verif(cfg, 'codes', fname, field_contracts(cfg), loops)
            res = V.obj('res', 'generator_mat_t')
            g = V.obj('G', 'generator_mat_t', readonly=True)
            m, D['c'], D['p'], D['s'] = valid_monomial(V, 'Q')
            canonical_matrix(V, G, K, N)
            ret, st = V.call([res, g, m])
            V.forall(st, 'exact product', rng, lambda row, j: And(
                V.rd(RES, row, z64(V.rd(D['p'], j)), st=st) == F.mul(V.ctx, V.rd(G, row, j), V.rd(D['c'], j)),
                canon(V.rd(RES, row, j, st=st))), 2)
            V.discharge(r)
        return u

    def mk(cfg):
        orders = ['columns', 'rows'] if cfg.impl == 'ref' else ['buffer', 'rows']
        return unit(cfg, fname)(lambda cfg, p, r: first_proved(cfg, p, r, [body(o) for o in orders]))
    return mk


u_gmm = gmm('generator_monomial_mul')
u_rgmm = gmm('rref_generator_monomial_mul')


# ------------------------------------------------------------------ C04
def u_sfseed(cfg):
    @unit(cfg, 'generator_SF_seed_expand')
    def u(cfg, p, r):
        N, K = p.N, p.K
        NK = N - K
        rv, rc = H('res', 'values'), H('res', 'column_pos')
        POS = z3.Function('ROWPOS', B64, B64)      # stream position before row i
        end = samp_fn('Q')[1]
        D = {}
        sk = []

        def strm(L):
            ks = [k for k in L.st.mem if k[1] and k[1][-1] == '$pos']
            k = one(ks, 'stream')
            return k, (k[0], k[1][:-1] + ('$id',))

        def inv0(L):
            kp, ki = strm(L)
            D['id'] = L.st.mem[ki]

            def b(L, i, j):
                return Implies(And(lt(i, K), lt(j, NK), lt(i, L.i)), L.rd(rv, i, j) == samp_read(L.ex.ctx, 'Q', D['id'], POS(i), j))
            return [('stream position', L.st.mem[kp] == POS(z64(L.i))), ('rows so far', Forall(2, b, [(rv, None)]))]

        def head(L):
            i = z64(L.i)
            L.ex.ctx.fact(POS(arith('+', i, I(1))) == end(D['id'], POS(i), I(NK)))

        def inv1(L):
            return [('positions so far', Forall(1, lambda L, i: Implies(And(lt(i, NK), lt(i, L.i)),
                                                                        z64(L.rd(rc, i)) == i + K), [(rc, None)]))]
        log = StreamLog()
        V = Verif(cfg, 'codes', 'generator_SF_seed_expand', {**stream_contracts(cfg, log), **SAMPLERS},
                  {(0,): LoopSpec(inv0, head=head), (1,): LoopSpec(inv1)})
        V.assume(POS(I(0)) == 0)
        res = V.obj('res', 'rref_generator_mat_t')
        seed = V.array('seed', 8, p.S, readonly=True)
        a = V.st.mem[(('H', 'seed'), ())]
        ret, st = V.call([res, seed])
        c = V.ctx
        i0 = content_id(V.ex, lambda c_, k: a.read(c_, [k]), p.S)
        V.prove(st, 'the stream is that of exactly the seed', D['id'] == i0)
        V.forall(st, 'rows drawn in order from the stream', lambda i, j: And(lt(i, K), lt(j, NK)),
                 lambda i, j: And(V.rd(rv, i, j, st=st) == samp_read(c, 'Q', i0, POS(i), j), canon(V.rd(rv, i, j, st=st))), 2)
        V.forall(st, 'systematic positions', lambda i: lt(i, NK), lambda i: z64(V.rd(rc, i, st=st)) == i + K)
        V.discharge(r)
    return u


def u_rnd(cfg):
    """generator_rnd: rows of canonical elements in order from the global source"""
    @unit(cfg, 'generator_rnd')
    def u(cfg, p, r):
        N, K = p.N, p.K
        rv = H('res', 'values')
        POS = z3.Function('ROWPOS', B64, B64)
        end = samp_fn('Q')[1]
        kp = (PLATFORM, ('$pos',))
        D = {}

        def inv(L):
            def b(L, i, j):
                return Implies(And(lt(i, K), lt(j, N), lt(i, L.i)), L.rd(rv, i, j) == samp_read(L.ex.ctx, 'Q', D['id'], POS(i), j))
            return [('position in the source', L.st.mem[kp] == POS(z64(L.i))), ('rows so far', Forall(2, b, [(rv, None)]))]

        def head(L):
            i = z64(L.i)
            L.ex.ctx.fact(POS(arith('+', i, I(1))) == end(D['id'], POS(i), I(N)))
        V = Verif(cfg, 'codes', 'generator_rnd', {**stream_contracts(cfg), **PLATFORM_SAMPLERS}, {(0,): LoopSpec(inv, head=head)})
        D['id'], p0 = platform_stream(V)
        V.assume(POS(I(0)) == p0)
        res = V.obj('res', 'generator_mat_t')
        ret, st = V.call([res])
        c = V.ctx
        V.forall(st, 'rows drawn in order from the source', lambda i, j: And(lt(i, K), lt(j, N)),
                 lambda i, j: And(V.rd(rv, i, j, st=st) == samp_read(c, 'Q', D['id'], POS(i), j), canon(V.rd(rv, i, j, st=st))), 2)
        V.discharge(r)
    return u


# ------------------------------------------------------------------ C10
class PivotSet:
    """ghost: a set of exactly K pivot columns among N given by flags; NR(c) counts the
       non-pivot columns before c, NC(k) is the k-th non-pivot, PC(k) the k-th pivot"""

    def __init__(self, ctx, p, flag):
        self.ctx, self.p, self.flag = ctx, p, flag
        self.NR = z3.Function('NR', B64, B64)
        self.NC = z3.Function('NC', B64, B64)
        self.PC = z3.Function('PC', B64, B64)

    def facts(self, c):
        """instances of the definition of the ranks at column c"""
        N, K = self.p.N, self.p.K
        f = self.flag(c)
        n = self.NR(c)
        pr = arith('-', c, n)
        return Implies(lt(c, N), And(
            z3.ULE(n, c), self.NR(arith('+', c, I(1))) == n + Ite(f, I(0), I(1)),
            z3.ULE(n, I(N - K)), z3.ULE(pr, I(K)),
            Ite(f, And(lt(pr, K), self.PC(pr) == c), And(lt(n, N - K), self.NC(n) == c))))

    def use(self, c):
        k = ('pivset', c.get_id())
        if k not in self.ctx.inst_done:
            self.ctx.inst_done.add(k)
            self.ctx.keep.append((c,))
            self.ctx.fact(self.facts(c))

    def kth(self, k):
        """non-pivot column number k"""
        c = self.NC(k)
        kk = ('pivkth', c.get_id())
        if kk not in self.ctx.inst_done:
            self.ctx.inst_done.add(kk)
            self.ctx.keep.append((c,))
            self.ctx.fact(Implies(lt(k, self.p.N - self.p.K), And(lt(c, self.p.N), Not(self.flag(c)), self.NR(c) == k)))
        return c

    def kthpivot(self, k):
        c = self.PC(k)
        kk = ('pivpth', c.get_id())
        if kk not in self.ctx.inst_done:
            self.ctx.inst_done.add(kk)
            self.ctx.keep.append((c,))
            self.ctx.fact(Implies(lt(k, self.p.K), And(lt(c, self.p.N), self.flag(c), c - self.NR(c) == k)))
        return c

    def start(self):
        self.ctx.fact(self.NR(I(0)) == 0)


def pivot_flags(V, name):
    """readonly flag array holding an arbitrary K-subset of the N columns"""
    pv = V.type('uint8_t') if False else None
    n = V.cfg.npad if hasattr(V.cfg, 'npad') else None
    f = V.array(name, 8, V.p.N if V.cfg.impl == 'ref' else npad(V.p.N), readonly=True)
    ref = (('H', name), ())
    a = V.st.mem[ref]
    ps = PivotSet(V.ctx, V.p, lambda c: Not(Eq(a.read(V.ctx, [c]), bv(0, 8))))
    a.gens.append(lambda ix: And(Implies(lt(ix[0], V.p.N), z3.ULE(a.f(*ix), bv(1, 8))), ps.facts(ix[0])))
    ps.start()
    return f, ref, ps


def npad(n):
    return (n + 31) // 32 * 32


def u_compact(cfg):
    @unit(cfg, 'generator_rref_compact')
    def u(cfg, p, r):
        N, K = p.N, p.K
        rv, rc = H('res', 'values'), H('res', 'column_pos')
        g = H('G', 'values')
        D, O = {}, {}

        def placed(L, i, c, bound, rows=None):
            n = D['ps'].NR(c)
            nonp = Not(D['ps'].flag(c))
            v = L.rd(rv, i, n) == L.rd(g, i, c)
            return And(lt(i, K), lt(c, N), nonp), v, n

        def dst(L):
            return z64(L.var('dst_col_idx'))

        def outer(L):
            D['ps'].use(z64(L.i))

            def b(L, i, n):
                c = D['ps'].kth(n)
                return Implies(And(lt(i, K), lt(n, N - K), lt(c, L.i)), And(L.rd(rv, i, n) == L.rd(g, i, c)))

            def q(L, n):
                c = D['ps'].kth(n)
                return Implies(And(lt(n, N - K), lt(c, L.i)), z64(L.rd(rc, n)) == c)
            return [('destination is the rank', dst(L) == D['ps'].NR(z64(L.i))),
                    ('columns kept', Forall(2, b, [(rv, None)])), ('positions kept', Forall(1, q, [(rc, None)]))]

        def inner(L):
            co = z64(L.ex.term(L.st, O['o']['ivar']))

            def b(L, i, n):
                c = D['ps'].kth(n)
                return Implies(And(lt(i, K), lt(n, N - K), Or(lt(c, co), And(c == co, lt(i, L.i)))), L.rd(rv, i, n) == L.rd(g, i, c))
            return [('columns kept', Forall(2, b, [(rv, None)]))]
        V = Verif(cfg, 'codes', 'generator_rref_compact', {}, {
            (0,): LoopSpec(outer, entry=lambda L: O.update(o=L.info)), (0, 0): LoopSpec(inner)})
        res = V.obj('res', 'rref_generator_mat_t')
        G = V.obj('G', 'generator_mat_t', readonly=True)
        f, fr, D['ps'] = pivot_flags(V, 'flags')
        ret, st = V.call([res, G, f])
        ps = D['ps']

        def post(i, n):
            c = ps.kth(n)
            return And(V.rd(rv, i, n, st=st) == V.rd(g, i, c), z64(V.rd(rc, n, st=st)) == c)
        V.forall(st, 'k-th stored column is the k-th non-pivot with its position', lambda i, n: And(lt(i, K), lt(n, N - K)), post, 2)
        V.discharge(r)
    return u


def u_expand(cfg):
    @unit(cfg, 'generator_rref_expand')
    def u(cfg, p, r):
        N, K = p.N, p.K
        rv = H('full', 'values')
        cv, cp = H('c', 'values'), H('c', 'column_pos')
        O = {}
        V = None

        def want(L, i, c):
            ps = O['ps']
            ps.use(c)
            n = ps.NR(c)
            return L.rd(rv, i, c) == Ite(O['flag'](c), Ite(i == c - n, bv(1, 8), bv(0, 8)), L.rd(cv, i, n))

        def outer(L):
            O['ps'].use(z64(L.i))
            O['ps'].kth(z64(L.var('placed_dense_cols')))

            def b(L, i, c):
                return Implies(And(lt(i, K), lt(c, N), lt(c, L.i)), want(L, i, c))
            return [('placed is the rank', z64(L.var('placed_dense_cols')) == O['ps'].NR(z64(L.i))),
                    ('columns restored', Forall(2, b, [(rv, None)]))]

        def inner(L):
            co = z64(L.ex.term(L.st, O['o']['ivar']))

            def b(L, i, c):
                return Implies(And(lt(i, K), lt(c, N), Or(lt(c, co), And(c == co, lt(i, L.i)))), want(L, i, c))
            return [('columns restored', Forall(2, b, [(rv, None)]))]
        V = Verif(cfg, 'codes', 'generator_rref_expand', {}, {
            (0,): LoopSpec(outer, entry=lambda L: O.update(o=L.info)), (0, 0): LoopSpec(inner), (0, 1): LoopSpec(inner)})
        full = V.obj('full', 'generator_mat_t')
        C = V.obj('c', 'rref_generator_mat_t', readonly=True)
        FL = z3.Function('PIVOT', B64, z3.BoolSort())
        ps = O['ps'] = PivotSet(V.ctx, p, lambda c: FL(c))
        O['flag'] = lambda c: FL(c)
        ps.start()
        V.gen(cp, lambda k: Implies(lt(k, N - K), z64(V.st.mem[cp].f(k)) == ps.kth(k)))
        ret, st = V.call([full, C])

        def post(i, c):
            ps.use(c)
            n = ps.NR(c)
            ps.kth(n)
            return V.rd(rv, i, c, st=st) == Ite(FL(c), Ite(i == c - n, bv(1, 8), bv(0, 8)), V.rd(cv, i, n))
        V.forall(st, 'non-pivots restored, pivots are the unit vectors in order', lambda i, c: And(lt(i, K), lt(c, N)), post, 2)
        V.discharge(r)
    return u


# ------------------------------------------------------------------ C11
def u_lexmin(cfg):
    @unit(cfg, 'lex_minimize')
    def u(cfg, p, r):
        houdini(cfg, p, r, body)

    def body(cfg, p, r, dropped):
        N, K = p.N, p.K
        v, g = H('V', 'values'), H('G', 'values')
        f = z3.BitVec('first', 64)        # ghost: index of the first nonzero entry, K when there is none
        V = Verif(cfg, 'codes', 'lex_minimize', field_contracts(cfg), {})
        col, dst = z3.BitVec('col', p.PW), z3.BitVec('dst', p.PW)

        def inv0(L):
            """search for the first nonzero entry: what each scalar it carries can be - the value found, the flag, the index"""
            hit, out = lt(f, L.i), []
            if 'not found yet' not in dropped:
                out.append(('cand <not found yet>', z3.ULE(z64(L.i), f)))
            for k in sorted((k for k in L.st.mem if L.local(k) and k[1] == () and z3.is_bv(L.st.mem[k]) and k != L.ref_i and
                             k[0][1] in L.info['assigned'] and k[0][1] not in L.info['decl_in']), key=str):
                t, n = L.st.mem[k], k[0][1].split('::')[-1]
                w = t.size()
                fit = lambda x: x if x.size() == w else trunc(x, w) if x.size() > w else zext(x, w)
                for role, x in (('value', L.rd(g, f, z64(col))), ('flag', bv(1, 8)), ('index', f)):
                    if f'{n} {role}' not in dropped:
                        out.append((f'cand <{n} {role}>', t == Ite(hit, fit(x), bv(0, w))))
            return out

        def inv1(L):
            def b(L, i, j):
                return Implies(And(lt(i, K), lt(j, N - K)), L.rd(v, i, j) == Ite(And(j == z64(dst), lt(i, L.i)), want(L.ex.ctx, i), V0(i, j)))
            return [('scaled so far', Forall(2, b, [(v, None)]))]
        V.ex.loops = {(0,): LoopSpec(inv0), (1,): LoopSpec(inv1)}
        vp = V.obj('V', 'normalized_IS_t')
        G = V.obj('G', 'generator_mat_t', readonly=True)
        canonical_matrix(V, g, K, N)
        a0 = V.st.mem[v]
        V0 = lambda i, j: a0.read(V.ctx, [i, j])
        V.assume(And(lt(z64(col), N), lt(z64(dst), N - K), z3.ULE(f, I(K))))
        x = lambda i: V.rd(g, i, z64(col))
        V.gen(g, lambda i, j: Implies(And(j == z64(col), lt(i, K)), And(Implies(lt(i, f), V.st.mem[g].f(i, j) == 0), Implies(i == f, V.st.mem[g].f(i, j) != 0))))

        def want(c, i):
            return Ite(lt(f, K), F.mul(c, x(i), F.inv(c, x(f))), bv(0, 8))
        ret, st = V.call([vp, dst, G, col])
        V.forall(st, 'scaled by the inverse of the first nonzero entry, other columns untouched',
                 lambda i, j: And(lt(i, K), lt(j, N - K)),
                 lambda i, j: V.rd(v, i, j, st=st) == Ite(j == z64(dst), want(V.ctx, i), V0(i, j)), 2)
        V.prove(st, 'first nonzero entry becomes one', Implies(lt(f, K), V.rd(v, f, z64(dst), st=st) == 1))
        V.forall(st, 'canonical', lambda i: lt(i, K), lambda i: canon(V.rd(v, i, z64(dst), st=st)))
        # the result depends only on the line: scaling the column by s leaves it unchanged
        s = z3.BitVec('s', 8)
        V.assume(nonzero(s))

        def line(i):
            F.lem_scale(V.ctx, s, x(i), x(f))
            return Implies(lt(f, K), F.mul(V.ctx, F.mul(V.ctx, s, x(i)), F.inv(V.ctx, F.mul(V.ctx, s, x(f)))) == V.rd(v, i, z64(dst), st=st))
        V.forall(st, 'depends only on the line', lambda i: lt(i, K), line)
        V.discharge(r)
    return u


# ------------------------------------------------------------------ C13
def u_apply(cfg):
    @unit(cfg, 'apply_action_to_G')
    def u(cfg, p, r):
        N, K = p.N, p.K
        rv, g = H('res', 'values'), H('G', 'values')
        qc, qp = H('Q', 'coefficients'), H('Q', 'permutation')
        S = z3.Function('SRC', B64, B64)             # ghost: which of the K entries uses column s
        USED = z3.Function('USED', B64, z3.BoolSort())
        O, D = {}, {}

        def flags(L):
            return one(local_arrays(L), 'flag array')

        def picked(L, row, j):
            return L.rd(rv, row, j) == F.mul(L.ex.ctx, L.rd(g, row, z64(L.rd(qp, j))), L.rd(qc, j))

        def rest(L, row, n):
            return L.rd(rv, row, I(K) + n) == L.rd(g, row, D['ps'].kth(n))

        def oiv(L):
            return z64(L.ex.term(L.st, O['o']['ivar']))

        def fl(L, bound):
            return Forall(1, lambda L, s: D['ps'].use(s) or Implies(lt(s, N), L.rd(flags(L), s) == Ite(And(USED(s), lt(S(s), bound(L))), bv(1, 8), bv(0, 8))), [(flags(L), None)])

        def b_all(bound, inner=False):
            def b(L, row, j):
                c = lt(j, bound(L)) if not inner else Or(lt(j, oiv(L)), And(j == oiv(L), lt(row, L.i)))
                return Implies(And(lt(row, K), lt(j, K), c), picked(L, row, j))
            return b

        def rest_all(inner=False):
            def b(L, row, j):
                n = j - I(K)
                c = D['ps'].kth(n)
                cc = lt(c, L.i) if not inner else Or(lt(c, oiv(L)), And(c == oiv(L), lt(row, L.i)))
                return Implies(And(lt(row, K), Not(lt(j, K)), lt(j, N), cc), rest(L, row, n))
            return b

        def l0(L):
            return [('flags mark the columns used', fl(L, lambda L: z64(L.i))), ('picked columns placed', Forall(2, b_all(lambda L: z64(L.i)), [(rv, None)]))]

        def l00(L):
            return [('picked columns placed', Forall(2, b_all(None, True), [(rv, None)]))]

        def l1(L):
            ps = D['ps']
            ps.use(z64(L.i))
            return [('destination', z64(L.var('dst_col_idx')) == I(K) + ps.NR(z64(L.i))),
                    ('picked columns kept', Forall(2, b_all(lambda L: I(K)), [(rv, None)])),
                    ('rest placed', Forall(2, rest_all(), [(rv, None)]))]

        def l10(L):
            return [('picked columns kept', Forall(2, b_all(lambda L: I(K)), [(rv, None)])),
                    ('rest placed', Forall(2, rest_all(True), [(rv, None)]))]
        so = lambda L: O.update(o=L.info)
        V = Verif(cfg, 'codes', 'apply_action_to_G', field_contracts(cfg), {
            (0,): LoopSpec(l0, entry=so), (0, 0): LoopSpec(l00), (1,): LoopSpec(l1, entry=so), (1, 0): LoopSpec(l10)})
        res = V.obj('res', 'generator_mat_t')
        G = V.obj('G', 'generator_mat_t', readonly=True)
        canonical_matrix(V, g, K, N)
        Q = V.obj('Q', 'monomial_action_IS_t', readonly=True)
        a = V.st.mem[qp]
        V.gen(qc, lambda j: Implies(lt(j, K), nonzero(V.st.mem[qc].f(j))))
        V.gen(qp, lambda j: Implies(lt(j, K), And(ult(a.f(j), N), USED(z64(a.f(j))), S(z64(a.f(j))) == j)))
        # K distinct used columns leave exactly N-K unused ones: ranks of the complement
        ps = D['ps'] = PivotSet(V.ctx, p, lambda c: USED(c))
        ps.start()
        f0 = ps.facts

        def facts(c):
            s = S(c)
            return And(f0(c), Implies(And(lt(c, N), USED(c)), And(lt(s, K), z64(a.read(V.ctx, [s])) == c)))
        ps.facts = facts
        ret, st = V.call([res, G, Q])
        rd = lambda ref, *i: V.rd(ref, *i, st=st)
        V.forall(st, 'scaled picked columns first', lambda i, j: And(lt(i, K), lt(j, K)),
                 lambda i, j: rd(rv, i, j) == F.mul(V.ctx, rd(g, i, z64(rd(qp, j))), rd(qc, j)), 2)
        V.forall(st, 'then the unused columns in order', lambda i, n: And(lt(i, K), lt(n, N - K)),
                 lambda i, n: rd(rv, i, I(K) + n) == rd(g, i, ps.kth(n)), 2)
        V.discharge(r)
    return u
