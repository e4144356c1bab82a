"""Contract of prepare_digest_input (codes.c): the commitment object and the reported action."""
import z3
from vcg import *
from harness import *
from common import *
from spec_monomial import H, lt, unit
from spec_codes import PivotSet
import math127 as F


def skolem(ex, st, label, rng, goal, n, kind='pre'):
    xs = [fresh(IDX, 'sk') for _ in range(n)]
    s2 = st.copy()
    s2.path = And(st.path, rng(*xs))
    ex.oblige(s2, label, goal(*xs), kind, info=xs)


def values(p):
    return (p.obj, p.path + ('values',))


class Commit:
    """the mathematical objects of one commitment: product, reduced form, normalised and sorted columns"""

    def __init__(self, V, G, Q):
        self.V, self.p, self.ctx = V, V.p, V.ctx
        self.R = z3.Function('REDUCED', B64, B64, B8)
        self.PV = z3.Function('PIVOT', B64, z3.BoolSort())
        self.LM = z3.Function('NORMALISED', B64, B64, B8)      # row, source column of the reduced matrix
        self.ST = z3.Function('SORTED', B64, B64, B8)
        self.ps = PivotSet(V.ctx, V.p, lambda c: self.PV(c))

    def prod(self, i, c):
        s = z64(self.sg.read(self.ctx, [c]))
        return F.mul(self.ctx, self.g0.read(self.ctx, [i, s]), self.co0.read(self.ctx, [s]))

    def cells(self, i, c):
        return And(lt(i, self.p.K), lt(c, self.p.N))

    def gmm(self, ex, st, av, fr):
        res, G, Q = av
        if (G.obj, G.path) != (self.Gp.obj, self.Gp.path) or (Q.obj, Q.path) != (self.Qp.obj, self.Qp.path):
            ex.oblige(st, f'the public generator times the given monomial {ex.site}', FALSE, 'pre')
        k = values(res)
        old = st.mem[k]
        st.mem[k] = Lam(lambda c, ix: Ite(self.cells(*ix), self.prod(*ix), old.read(c, ix)), 2, 8)
        ex.log(k)

    def rref(self, ex, st, av, fr):
        G, fl = av
        k, fk = values(G), (fl.obj, fl.path)
        a, f = st.mem[k], st.mem[fk]
        skolem(ex, st, f'reduces the product {ex.site}', self.cells, lambda i, c: a.read(ex.ctx, [i, c]) == self.prod(i, c), 2)
        skolem(ex, st, f'flags clear {ex.site}', lambda c: lt(c, self.p.N), lambda c: f.read(ex.ctx, [c]) == 0, 1)

        def rd(c, ix):
            t = self.R(*ix)
            c.fact(Implies(self.cells(*ix), canon(t)))
            return Ite(self.cells(*ix), t, a.read(c, ix))
        st.mem[k] = Lam(rd, 2, 8)

        def rf(c, ix):
            self.ps.use(ix[0])
            return Ite(lt(ix[0], self.p.N), Ite(self.PV(ix[0]), bv(1, 8), bv(0, 8)), f.read(c, ix))
        st.mem[fk] = Lam(rf, 1, 8)
        ex.log(k)
        ex.log(fk)
        return bv(1, 32)

    def lexmin(self, ex, st, av, fr):
        Vp, dst, G, col = av
        d, c = z64(dst), z64(col)
        a = st.mem[values(G)]
        ex.oblige(st, f'column indices in range {ex.site}', And(lt(d, self.p.N - self.p.K), lt(c, self.p.N)), 'pre')
        skolem(ex, st, f'a column of the reduced matrix {ex.site}', lambda i: lt(i, self.p.K), lambda i: a.read(ex.ctx, [i, c]) == self.R(i, c), 1)
        k = values(Vp)
        old = st.mem[k]
        st.mem[k] = Lam(lambda x, ix: Ite(And(ix[1] == d, lt(ix[0], self.p.K)), self.LM(ix[0], c), old.read(x, ix)), 2, 8)
        ex.log(k)

    def sort(self, ex, st, av, fr):
        k = values(av[0])
        a = st.mem[k]
        skolem(ex, st, f'sorts the normalised non-pivot columns {ex.site}', lambda i, n: And(lt(i, self.p.K), lt(n, self.p.N - self.p.K)),
               lambda i, n: a.read(ex.ctx, [i, n]) == self.LM(i, self.ps.kth(n)), 2, 'post')
        st.mem[k] = Lam(lambda x, ix: Ite(And(lt(ix[0], self.p.K), lt(ix[1], self.p.N - self.p.K)), self.ST(*ix), a.read(x, ix)), 2, 8)
        ex.log(k)


def u_prepare(cfg):
    @unit(cfg, 'prepare_digest_input')
    def u(cfg, p, r):
        N, K = p.N, p.K
        v = H('V', 'values')
        qc, qp = H('Qbar', 'coefficients'), H('Qbar', 'permutation')
        O = {}
        V = Verif(cfg, 'codes', 'prepare_digest_input', {}, {})
        vp = V.obj('V', 'normalized_IS_t')
        qb = V.obj('Qbar', 'monomial_action_IS_t')
        G = V.obj('G', 'generator_mat_t', readonly=True)
        canonical_matrix(V, H('G', 'values'), K, N)
        Q, mc, mp, sg = valid_monomial(V, 'Q')
        C = Commit(V, G, Q)
        C.Gp, C.Qp, C.sg, C.g0, C.co0 = G, Q, sg, V.st.mem[H('G', 'values')], V.st.mem[mc]
        ps = C.ps
        ps.start()

        def source(c):
            return z64(sg.read(V.ctx, [c]))

        def coef(s):
            return C.co0.read(V.ctx, [s])

        def outer(L):
            c = z64(L.i)
            ps.use(c)
            n = ps.NR(c)
            o = [('pivots placed is the rank', z64(L.var('piv_idx')) == c - n),
                 ('non-pivots placed is the rank', z64(L.var('non_piv_idx')) == I(K) + n)]

            def cols(L, i, m):
                s = ps.kth(m)
                return Implies(And(lt(i, K), lt(m, N - K), lt(s, L.i)), L.rd(v, i, m) == C.LM(i, s))

            def act(L, m):
                s = ps.kthpivot(m)
                return Implies(And(lt(m, K), lt(s, L.i)), And(z64(L.rd(qp, m)) == source(s), L.rd(qc, m) == coef(source(s))))
            return o + [('normalised columns stored', Forall(2, cols, [(v, None)])), ('action stored', Forall(1, act, [(qp, None), (qc, None)]))]

        def inner(L):
            c = z64(L.ex.term(L.st, O['o']['ivar']))
            s = source(c)
            done = lt(s, L.i)
            val = L.var('val')
            return [('source column', z64(L.var('row_idx')) == Ite(done, s, I(0))),
                    ('its coefficient', val == Ite(done, zext(coef(s), val.size()), bv(0, val.size())))]
        V.ex.contracts.update({'generator_monomial_mul': C.gmm, 'generator_RREF': C.rref, 'lex_minimize': C.lexmin, 'lex_sort_cols': C.sort})
        V.ex.loops = {(0,): LoopSpec(outer, entry=lambda L: O.update(o=L.info)), (0, 0): LoopSpec(inner)}
        ret, st = V.call([vp, qb, G, Q])
        V.forall(st, 'the commitment is the sorted list', lambda i, n: And(lt(i, K), lt(n, N - K)), lambda i, n: V.rd(v, i, n, st=st) == C.ST(i, n), 2)

        def act(m):
            s = ps.kthpivot(m)
            q = z64(V.rd(qp, m, st=st))
            mp0 = V.st.mem[mp]
            return And(q == source(s), z64(mp0.read(V.ctx, [q])) == s, V.rd(qc, m, st=st) == coef(q))
        V.forall(st, 'action: source column and coefficient landing on the m-th pivot', lambda m: lt(m, K), act)
        V.discharge(r)
    return u
