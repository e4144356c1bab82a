"""Contract of expand_digest_to_fixed_weight (utils.c)."""
import z3
from vcg import *
from harness import *
from common import *
from spec_monomial import H, lt, unit
from cbuiltins import bytes_reader, fill_bytes

GN = (('ghost', 'draws'), ())


class Challenge:
    """the challenge after n 16-bit draws: FW(n, p) entries, CW(n) their weight"""

    def __init__(self, V):
        self.V, self.p, self.ctx = V, V.p, V.ctx
        self.FW = z3.Function('FW', B64, B64, B8)
        self.CW = z3.Function('CW', B64, B64)
        self.id = None
        self.succ = {}
        self.vb = (self.p.NK - 1).bit_length()
        self.pb = self.p.T.bit_length()

    def word(self, n):
        i, k = self.id, n << 1
        return z3.Concat(OUT(i, arith('+', k, I(1))), OUT(i, k))

    def value(self, n):
        return zext(z3.Extract(self.vb - 1, 0, self.word(n)), 8)

    def pos(self, n):
        return zext(z3.Extract(self.vb + self.pb - 1, self.vb, self.word(n)), 64)

    def accepted(self, n):
        return And(ult(self.value(n), self.p.NK), lt(self.pos(n), self.p.T), self.FW(n, self.pos(n)) == 0)

    def step(self, n):
        """definition of the weight after draw n"""
        n1 = arith('+', n, I(1))
        self.succ[n1.get_id()] = (n, n1)
        self.ctx.fact(self.CW(n1) == self.CW(n) + Ite(And(self.accepted(n), self.value(n) != 0), I(1), I(0)))
        return n1

    def entry(self, n, q):
        t = self.FW(n, q)
        pr = self.succ.get(n.get_id())
        if pr is not None:
            n0 = pr[0]
            self.ctx.fact(t == Ite(And(self.accepted(n0), q == self.pos(n0)), self.value(n0), self.FW(n0, q)))
        if is_num(n) and num(n) == 0:
            self.ctx.fact(t == 0)
        return t


def u_challenge(cfg):
    @unit(cfg, 'expand_digest_to_fixed_weight')
    def u(cfg, p, r):
        V = Verif(cfg, 'utils', 'expand_digest_to_fixed_weight')
        fw = V.array('fixed_weight_string', 8, p.T)
        dg = V.array('digest', 8, p.H, readonly=True)
        kf, kd = (fw.obj, ()), (dg.obj, ())
        a0 = V.st.mem[kf]
        a0.gens.append(lambda ix: Implies(lt(ix[0], p.T), a0.f(*ix) == 0))
        C = Challenge(V)
        log = StreamLog()
        init = c_initialize_csprng(log)
        V.st.mem[GN] = I(0)
        V.assume(C.CW(I(0)) == 0)

        def start(ex, st, av, fr):
            init(ex, st, av, fr)
            i, k, fn = log.calls[-1]
            ex.oblige(st, f'one stream, of the whole digest {ex.site}', z3.BoolVal(len(log.calls) == 1 and k == p.H), 'pre')
            for lo in range(0, min(k, p.H), 8):
                ex.oblige(st, f'digest bytes {lo} {ex.site}', And(*[fn(ex.ctx, I(q)) == V.rd(kd, I(q)) for q in range(lo, lo + 8)]), 'pre')
            C.id = z3.BitVec('DIGESTSTREAM', 64)
            st.mem[sid(av[0])] = C.id

        def draw(ex, st, av, fr):
            out, n, s = av
            n = z3.simplify(z64(n))
            k = st.mem[GN]
            ex.oblige(st, f'two bytes, the next ones {ex.site}', And(n == 2, st.mem[spos(s)] == k << 1), 'pre')
            c_squeeze(ex, st, [out, I(2), s], fr)
            # the bytes by their position in the stream
            ex.ctx.fact(Implies(st.path, st.mem[spos(s)] == (k << 1) + 2))
            fill_bytes(ex, st, out, I(2), lambda c, q: OUT(C.id, arith('+', k << 1, q)))
            st.mem[GN] = C.step(k)
            ex.log(GN)
        a = '128' if cfg.cat == '1' else '256'
        V.ex.contracts.update({'initialize_csprng': start, f'shake{a}_inc_squeeze': draw})

        def stream(L):
            ks = [k for k in L.st.mem if k[1] and k[1][-1] == '$pos']
            if len(ks) != 1:
                raise ShapeMismatch('one stream expected')
            return L.st.mem[ks[0]]

        def ids(L):
            ks = [k for k in L.st.mem if k[1] and k[1][-1] == '$id']
            return L.st.mem[ks[0]] == C.id

        def inv(L):
            n = L.st.mem[GN]
            cnt = L.counter('placed_elements')
            cnt = sext(cnt, 64)

            def b(L, q):
                n = L.st.mem[GN]
                return Implies(lt(q, p.T), And(L.rd(kf, q) == C.entry(n, q), ult(L.rd(kf, q), p.NK)))
            return [('draws so far', And(stream(L) == n << 1, ids(L))), ('nonzero entries', And(cnt == C.CW(n), z3.ULE(cnt, I(p.W)))),
                    ('entries', Forall(1, b, [(kf, None)]))]

        def inner(L):
            return inv_c(L)

        def inv_c(L):
            n = L.st.mem[GN]
            cnt = sext(L.var('placed_elements'), 64) if has(L, 'placed_elements') else None

            def b(L, q):
                n = L.st.mem[GN]
                return Implies(lt(q, p.T), And(L.rd(kf, q) == C.entry(n, q), ult(L.rd(kf, q), p.NK)))
            o = [('draws so far', And(stream(L) == n << 1, ids(L))), ('entries', Forall(1, b, [(kf, None)]))]
            o.insert(1, ('nonzero entries', And(C.CW(n) == C.CW(D['n']), z3.ULT(C.CW(n), I(p.W)))))
            return o
        D = {}

        def has(L, v):
            try:
                L.var(v)
                return True
            except ShapeMismatch:
                return False
        V.ex.loops = {(0,): LoopSpec(inv, entry=lambda L: D.update(n=L.st.mem[GN])), (0, 0): LoopSpec(inner)}
        V.ex.optional = {(0, 0)}
        ret, st = V.call([fw, dg])
        n = st.mem[GN]
        V.prove(st, 'weight exactly W', C.CW(n) == p.W)
        V.forall(st, 'entries are those drawn', lambda q: lt(q, p.T), lambda q: And(V.rd(kf, q, st=st) == C.entry(n, q), ult(V.rd(kf, q, st=st), p.NK)))
        q = fresh(64, 'p')
        m = fresh(64, 'draw')
        C.step(m)
        V.ex.oblige(V.st, 'a nonzero entry is never overwritten', Implies(C.FW(m, q) != 0, C.entry(C.step(m), q) == C.FW(m, q)), 'lemma')
        V.discharge(r)
    return u
