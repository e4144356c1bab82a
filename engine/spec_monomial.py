"""Contracts of monomial.c (monomial matrices, column actions, expansion from seeds)
   and of the field samplers."""
import z3
from vcg import *
from harness import *
from common import *
import math127 as F


def H(o, *path):
    return (('H', o), tuple(path))


def lt(j, n):
    return z3.ULT(j, I(n) if isinstance(n, int) else z64(n))


def unit(cfg, name, timeout=20000):
    def deco(f):
        def g(r):
            f(cfg, P(cfg), r)
        return Unit(f'{cfg.name}/{name}', g, timeout)
    return deco


# ------------------------------------------------------------------ C02
def u_mul(cfg):
    @unit(cfg, 'monomial_mat_mul')
    def u(cfg, p, r):
        N, w = p.N, p.PW
        rc, rp = H('res', 'coefficients'), H('res', 'permutation')
        D = {}

        def inv(L):
            c = L.ex.ctx

            def b(L, j):
                a = z64(L.rd(D['ap'], j))
                return Implies(And(lt(j, L.i), lt(j, N)), And(
                    L.rd(rp, j) == L.rd(D['bp'], a),
                    L.rd(rc, j) == F.mul(c, L.rd(D['ac'], j), L.rd(D['bc'], a))))
            return [('product so far', Forall(1, b, [(rc, None), (rp, None)]))]
        V = Verif(cfg, 'monomial', 'monomial_mat_mul', field_contracts(cfg), {(0,): LoopSpec(inv)})
        res = V.obj('res', 'monomial_t')
        A, D['ac'], D['ap'], sa = valid_monomial(V, 'A')
        B, D['bc'], D['bp'], sb = valid_monomial(V, 'B')
        ret, st = V.call([res, A, B])
        c = V.ctx
        rd = lambda ref, i: V.rd(ref, i, st=st)

        def post(i):
            a = z64(rd(D['ap'], i))
            return And(rd(rp, i) == rd(D['bp'], a), rd(rc, i) == F.mul(c, rd(D['ac'], i), rd(D['bc'], a)))
        V.forall(st, 'exact product', lambda i: lt(i, N), post)

        def valid(i):
            q = z64(rd(rp, i))
            s = sa.read(c, [z64(sb.read(c, [q]))])
            return And(nonzero(rd(rc, i)), lt(q, N), z64(s) == i)
        V.forall(st, 'result is a valid monomial (left inverse witness)', lambda i: lt(i, N), valid)
        V.discharge(r)
    return u


def u_inv(cfg):
    @unit(cfg, 'monomial_mat_inv')
    def u(cfg, p, r):
        N = p.N
        rc, rp = H('res', 'coefficients'), H('res', 'permutation')
        D = {}

        def inv(L):
            c = L.ex.ctx

            def b(L, j):
                s = z64(D['s'].read(c, [j]))
                return Implies(And(lt(j, N), lt(s, L.i)), And(
                    z64(L.rd(rp, j)) == s, L.rd(rc, j) == F.inv(c, L.rd(D['c'], s))))
            return [('inverse so far', Forall(1, b, [(rc, None), (rp, None)]))]
        V = Verif(cfg, 'monomial', 'monomial_mat_inv', field_contracts(cfg), {(0,): LoopSpec(inv)})
        res = V.obj('res', 'monomial_t')
        A, D['c'], D['p'], D['s'] = valid_monomial(V, 'A')
        ret, st = V.call([res, A])
        c = V.ctx
        rd = lambda ref, i: V.rd(ref, i, st=st)

        def left(i):      # A * res = 1
            a = z64(rd(D['p'], i))
            return And(z64(rd(rp, a)) == i, F.mul(c, rd(D['c'], i), rd(rc, a)) == 1)

        def right(i):     # res * A = 1
            a = z64(rd(rp, i))
            return And(lt(a, N), z64(rd(D['p'], a)) == i, F.mul(c, rd(rc, i), rd(D['c'], a)) == 1)
        V.forall(st, 'A*res is the identity', lambda i: lt(i, N), left)
        V.forall(st, 'res*A is the identity', lambda i: lt(i, N), right)
        V.forall(st, 'coefficients valid', lambda i: lt(i, N), lambda i: nonzero(rd(rc, i)))
        V.discharge(r)
    return u


def u_id(cfg):
    @unit(cfg, 'monomial_mat_id')
    def u(cfg, p, r):
        N = p.N
        rc, rp = H('res', 'coefficients'), H('res', 'permutation')

        def inv(L):
            return [('identity so far', Forall(1, lambda L, j: Implies(
                And(lt(j, N), lt(j, L.i)), And(z64(L.rd(rp, j)) == j, L.rd(rc, j) == 1)), [(rc, None), (rp, None)]))]
        V = Verif(cfg, 'monomial', 'monomial_mat_id', {}, {(0,): LoopSpec(inv)})
        res = V.obj('res', 'monomial_t')
        ret, st = V.call([res])
        V.forall(st, 'identity', lambda i: lt(i, N), lambda i: And(
            z64(V.rd(rp, i, st=st)) == i, V.rd(rc, i, st=st) == 1))
        V.discharge(r)
    return u


def u_compose(cfg):
    @unit(cfg, 'monomial_compose_action')
    def u(cfg, p, r):
        N, K = p.N, p.K
        oc, op = H('out', 'coefficients'), H('out', 'permutation')
        ic, ip = H('in', 'coefficients'), H('in', 'permutation')
        D = {}
        E0 = {}

        def revrefs(L):
            ks = [k for k in L.st.mem if isinstance(k[0], tuple) and isinstance(k[0][1], str) and
                  L.local(k) and k[1] in (('permutation',), ('coefficients',))]
            objs = {k[0] for k in ks}
            if len(objs) != 1:
                raise ShapeMismatch('expected one local monomial')
            o = objs.pop()
            return (o, ('coefficients',)), (o, ('permutation',))

        def inv0(L):
            c = L.ex.ctx
            vc, vp = revrefs(L)

            def b(L, j):
                s = z64(D['s'].read(c, [j]))
                return Implies(And(lt(j, N), lt(s, L.i)), And(z64(L.rd(vp, j)) == s, L.rd(vc, j) == L.rd(D['c'], s)))
            return [('reversed so far', Forall(1, b, [(vc, None), (vp, None)]))]

        def spec(c, rd, j):
            s = z64(D['s'].read(c, [z64(rd(ip, j))]))
            return s, F.mul(c, rd(ic, j), rd(D['c'], s))

        def inv1(L):
            c = L.ex.ctx

            def b(L, j):
                s, m = spec(c, L.rd, j)
                return Implies(And(lt(j, K), lt(j, L.i)), And(z64(L.rd(op, j)) == s, L.rd(oc, j) == m))
            return [('composed so far', Forall(1, b, [(oc, None), (op, None)]))]
        V = Verif(cfg, 'monomial', 'monomial_compose_action', field_contracts(cfg),
                  {(0,): LoopSpec(inv0), (1,): LoopSpec(inv1)})
        out = V.obj('out', 'monomial_action_IS_t')
        Q, D['c'], D['p'], D['s'] = valid_monomial(V, 'Q')
        inp = V.obj('in', 'monomial_action_IS_t', readonly=True)
        V.gen(ic, lambda i: Implies(lt(i, K), nonzero(V.rd(ic, i))))
        V.gen(ip, lambda i: Implies(lt(i, K), ult(V.rd(ip, i), N)))
        ret, st = V.call([out, Q, inp])
        c = V.ctx
        rd = lambda ref, i: V.rd(ref, i, st=st)

        def post(j):
            s, m = spec(c, rd, j)
            q = z64(rd(op, j))
            return And(q == s, rd(oc, j) == m, lt(q, N), z64(rd(D['p'], q)) == z64(rd(ip, j)), nonzero(rd(oc, j)))
        V.forall(st, 'preimage column and product of coefficients', lambda j: lt(j, K), post)
        V.discharge(r)
    return u


# ------------------------------------------------------------------ C06
def u_valid(cfg):
    @unit(cfg, 'is_monom_action_valid')
    def u(cfg, p, r):
        N, K, w = p.N, p.K, p.PW
        mc, mp = H('m', 'coefficients'), H('m', 'permutation')
        # ghost: WHERE(i,v) = some index j < i with permutation[j] = v when there is one
        WHERE = z3.Function('WHERE', B64, B64, B64)
        D = {}

        def inv0(L):
            return [('coefficients so far', Forall(1, lambda L, j: Implies(
                And(lt(j, K), lt(j, L.i)), nonzero(L.rd(mc, j))), [(mc, None)]))]

        def flags(L):
            ks = [k for k in L.st.mem if L.local(k) and
                  isinstance(L.st.mem[k], Arr) and L.st.mem[k].w == 8]
            if len(ks) != 1:
                raise ShapeMismatch('expected one flag array')
            return ks[0]

        def inv1(L):
            fl = flags(L)
            i = z64(L.i)

            def b(L, j):
                return Implies(And(lt(j, K), lt(j, i)), And(
                    ult(L.rd(mp, j), N), L.rd(fl, z64(L.rd(mp, j))) == 1,
                    WHERE(i, z64(L.rd(mp, j))) == j))

            def f(L, v):
                wv = WHERE(i, v)
                return Implies(lt(v, N), And(
                    Or(L.rd(fl, v) == 0, And(L.rd(fl, v) == 1, lt(wv, i), lt(wv, K), z64(L.rd(mp, wv)) == v)),
                    nonzero_all(L)))
            return [('positions so far', Forall(1, b, [(mp, None)])),
                    ('flags are exactly the positions seen', Forall(1, f, [(fl, None)]))]

        def nonzero_all(L):
            return TRUE

        def ghost(Lh, Lb):
            c = Lh.ex.ctx
            i = z64(Lh.i)
            D['i'] = i
        # WHERE(i+1,v) = if permutation[i] = v then i else WHERE(i,v): defining equation,
        # instantiated at the terms that occur (recursion over i, so it is consistent)

        def head(L):
            D['head'] = L
            i = z64(L.i)
            v = z64(L.rd(mp, i))
            L.ex.ctx.fact(WHERE(i + 1, v) == i)
        V = Verif(cfg, 'monomial', 'is_monom_action_valid', {}, {(0,): LoopSpec(inv0), (1,): LoopSpec(inv1, head=head)})

        orig = V.ex.check_inv

        def check_inv(st, L, inv, label):
            if isinstance(inv, Forall) and 'loop1' in label and 'preserve' in label:
                i0 = z64(D['head'].i)
                vi = z64(D['head'].rd(mp, i0))
                b0 = inv.body

                def b(L, x):
                    for v in (x, z64(L.rd(mp, x))):
                        L.ex.ctx.fact(WHERE(i0 + 1, v) == z3.If(v == vi, i0, WHERE(i0, v)))
                    return b0(L, x)
                inv = Forall(inv.n, b, inv.trig)
            return orig(st, L, inv, label)
        V.ex.check_inv = check_inv
        m = V.obj('m', 'monomial_action_IS_t', readonly=True)
        ret, st = V.call([m])
        V.prove(st, 'verdict is 0 or 1', Or(ret == 0, ret == 1))
        acc = lambda i, j: And(lt(i, K), lt(j, K), Not(Eq(ret, bv(0, 32))))
        rd = lambda ref, i: V.rd(ref, i)
        V.forall(st, 'accepted implies well formed', acc, lambda i, j: And(
            nonzero(rd(mc, i)), ult(rd(mp, i), N), Or(i == j, rd(mp, i) != rd(mp, j))), 2)
        # rejected implies a witness of malformedness: assume well-formedness everywhere
        V.discharge(r)
    return u


def u_valid_complete(cfg):
    """a well-formed action is accepted"""
    @unit(cfg, 'is_monom_action_valid(complete)')
    def u(cfg, p, r):
        N, K, w = p.N, p.K, p.PW
        mc, mp = H('m', 'coefficients'), H('m', 'permutation')

        def flags(L):
            ks = [k for k in L.st.mem if L.local(k) and
                  isinstance(L.st.mem[k], Arr) and L.st.mem[k].w == 8]
            if len(ks) != 1:
                raise ShapeMismatch('expected one flag array')
            return ks[0]
        S = z3.Function('SEEN', B64, B64)     # ghost left inverse of the (injective) positions

        def inv1(L):
            fl = flags(L)
            i = z64(L.i)
            return [('flagged positions were seen', Forall(1, lambda L, v: Implies(
                lt(v, N), Or(L.rd(fl, v) == 0, lt(S(v), i))), [(fl, None)]))]
        V = Verif(cfg, 'monomial', 'is_monom_action_valid', {}, {(0,): LoopSpec(), (1,): LoopSpec(inv1)})
        m = V.obj('m', 'monomial_action_IS_t', readonly=True)
        V.gen(mc, lambda i: Implies(lt(i, K), nonzero(V.rd(mc, i))))
        V.gen(mp, lambda i: Implies(lt(i, K), And(ult(V.rd(mp, i), N), S(z64(V.rd(mp, i))) == i)))
        ret, st = V.call([m])
        V.prove(st, 'well formed implies accepted', ret == 1)
        V.discharge(r)
    return u


# ------------------------------------------------------------------ C04 samplers
def u_sampler(cfg, fname, kind, lo, hi, platform=False):
    """fname(state, buffer, n): element k is the value of the k-th accepted 7-bit group"""
    base = 'monomial' if kind == 'STAR' else 'codes'

    @unit(cfg, fname)
    def u(cfg, p, r):
        span = hi - lo
        G = 64 // 7
        # ghost, defined by recursion over the groups (w,i) of the stream's words:
        # SH(w,i) word w shifted right by 7i; CNT(w,i) accepted groups before (w,i)
        SH = z3.Function('SH', B64, B64, B64)
        CNT = z3.Function('CNT', B64, B64, B64)
        buf = (('H', 'buf'), ())
        n = z3.BitVec('n', 64)
        sst = PLATFORM if platform else ('H', 'st')
        ID, P0 = z3.BitVec('id', 64), z3.BitVec('p0', 64)
        wk = (('ghost', 'w'), ())
        tk = (('ghost', 'trig'), ())
        D = {}

        def word(w):
            o = arith('+', P0, arith('*', w, I(8)))
            return z3.Concat(*[OUT(ID, arith('+', o, I(7 - k))) for k in range(8)])

        def gv(w, i):
            return z3.Extract(6, 0, SH(w, i))

        def acc(w, i):
            return z3.ULE(gv(w, i), bv(span, 7))

        def val(w, i):
            return zext(gv(w, i), 8) + bv(lo, 8)

        def unfold(c, w, i):
            i1 = arith('+', i, I(1))
            c.fact(SH(w, i1) == z3.LShR(SH(w, i), 7))
            c.fact(CNT(w, i1) == CNT(w, i) + Ite(acc(w, i), I(1), I(0)))

        def placed(L, i):
            w = L.st.mem[wk]

            def b(L, wx, ix):
                cx = CNT(wx, ix)
                return Implies(And(lt(ix, G), Or(lt(wx, w), And(wx == w, lt(ix, i))), acc(wx, ix)), And(
                    z3.ULT(cx, z64(L.var('count'))), L.rd(buf, cx) == val(wx, ix)))
            return ('accepted groups placed', Forall(2, b, [(tk, None)]))

        def inv0(L):
            w = L.st.mem[wk]
            cv = z64(L.var('count'))
            return [('stream at the next word', L.st.mem[(sst, ('$pos',))] == arith('+', P0, arith('*', w, I(8)))),
                    ('count is the number accepted', And(cv == CNT(w, I(0)), z3.ULT(cv, n))),
                    placed(L, I(0))]

        def inv1(L):
            w = L.st.mem[wk]
            i = z64(L.i)
            cv = z64(L.var('count'))
            return [('count is the number accepted', And(cv == CNT(w, i), z3.ULT(cv, n), z3.ULE(i, I(G)))),
                    ('word shifted', L.var('word') == SH(w, i)),
                    placed(L, i)]

        def ghost(Lh, Lb):
            Lb.st.mem[wk] = arith('+', Lh.st.mem[wk], I(1))

        def head0(L):
            w = L.st.mem[wk]
            c = L.ex.ctx
            c.fact(z3.ULT(w, I(1 << 56)))      # a run draws fewer than 2^56 words
            c.fact(SH(w, I(0)) == word(w))
            c.fact(CNT(arith('+', w, I(1)), I(0)) == CNT(w, I(G)))

        def head1(L):
            D['w'], D['i'] = L.st.mem[wk], z64(L.i)
            unfold(L.ex.ctx, D['w'], D['i'])
        V = Verif(cfg, base, fname, stream_contracts(cfg),
                  {(0,): LoopSpec(inv0, ghost=([wk], ghost), head=head0), (0, 0): LoopSpec(inv1, head=head1)})
        V.st.mem[wk] = I(0)
        V.st.mem[tk] = Base('trig', 2, 8)
        V.assume(CNT(I(0), I(0)) == 0)
        # callers request N or (N-K)*K elements; far below 2^40
        V.assume(And(z3.UGE(n, I(1)), z3.ULE(n, I(1 << 40))))
        if platform:          # the global source instead of a state of the caller's
            args = []
            V.ex.init_global(sst, sst[1], V.st)
        else:
            args = [V.obj('st', ty=Ty('struct', fields=[], tag='s'))]
        V.st.mem[(sst, ('$id',))] = ID
        V.st.mem[(sst, ('$pos',))] = P0
        b = V.array('buf', 8, n)
        ret, st = V.call(args + [b, n])
        c = V.ctx
        w, i = D['w'], D['i']     # the word and group being consumed when the function returned
        tr = V.st.mem[tk]

        def goal(x, ix):
            tr.read(c, [x, ix])
            return And(z3.ULT(CNT(x, ix), n), V.rd(buf, CNT(x, ix), st=st) == val(x, ix))
        V.forall(st, 'every accepted group up to the last is the element of its rank', lambda x, ix: And(
            lt(ix, G), Or(lt(x, w), And(x == w, z3.ULE(ix, i))), acc(x, ix)), goal, 2)
        V.prove(st, 'the last element is the last group consumed', And(CNT(w, i) + 1 == n, acc(w, i), lt(i, G)))
        V.prove(st, 'whole words consumed', st.mem[(sst, ('$pos',))] == P0 + (w + 1) * 8)
        V.discharge(r)
    return u


def u_star(cfg):
    return u_sampler(cfg, 'fq_star_rnd_state_elements', 'STAR', 1, 126)


def u_range(cfg):
    return u_sampler(cfg, 'rand_range_q_state_elements', 'Q', 0, 126)


def u_star_platform(cfg):
    return u_sampler(cfg, 'fq_star_rnd_elements', 'STAR', 1, 126, True)


def u_range_platform(cfg):
    return u_sampler(cfg, 'rand_range_q_elements', 'Q', 0, 126, True)


# ------------------------------------------------------------------ C03 shuffle and expansion
SHUF = z3.Function('SHUF', B64, B64, B64, B64)        # stream, position, index -> permutation value
SHUFINV = z3.Function('SHUFINV', B64, B64, B64, B64)


def shuf_read(ctx, p, i, pos, k):
    t = SHUF(i, pos, k)
    key = ('shuf', t.get_id())
    if key not in ctx.inst_done:
        ctx.inst_done.add(key)
        ctx.keep.append((t,))
        ctx.fact(Implies(lt(k, p.N), And(lt(t, p.N), SHUFINV(i, pos, t) == k)))
    return t


def c_shuffle(p):
    def c(ex, st, av, fr):
        s, perm = av
        i, pos = st.mem[sid(s)], st.mem[spos(s)]
        if not isinstance(perm, Ptr):
            raise Unsupported('shuffle of non-array')
        key = (perm.obj, perm.path)
        a = st.mem[key]
        sk = fresh(IDX, 'sk')
        s2 = st.copy()
        s2.path = And(st.path, lt(sk, p.N))
        base = perm.idxs[-1] if perm.idxs else I(0)
        if perm.idxs and not (is_num(base) and num(base) == 0):
            raise Unsupported('shuffle of array slice')
        ex.oblige(s2, f'shuffle of the identity {ex.site}', z64(a.read(ex.ctx, [sk])) == sk, 'pre')
        st.mem[key] = ex.overlay(a, [], I(0), I(p.N), lambda c_, k: trunc(shuf_read(c_, p, i, pos, k), p.PW))
        ex.log(key)
        st.mem[spos(s)] = arith('+', pos, I(4 * p.N))
        ex.log(spos(s))
        return None
    return c


def u_shuffle(cfg):
    @unit(cfg, 'yt_shuffle_state')
    def u(cfg, p, r):
        N, w = p.N, p.PW
        sst = ('H', 'st')
        pm = (('H', 'perm'), ())
        ID, P0 = z3.BitVec('id', 64), z3.BitVec('p0', 64)
        PI = z3.Function('PI', B64, B64, B64)         # permutation after i swaps
        QI = z3.Function('QI', B64, B64, B64)         # its ghost inverse
        MODU = z3.Function('MODU', B64, B64, B64)
        D = {}

        def R(k):
            o = arith('+', P0, arith('*', k, I(4)))
            return z3.Concat(*[OUT(ID, arith('+', o, I(3 - b))) for b in range(4)])

        def J(c, k):
            """partner of position k: k + (k-th 32-bit word mod (N-k))"""
            m = z64(R(k))
            d = arith('-', I(N), k)
            t = MODU(m, d)
            c.fact(Implies(lt(k, N), z3.ULT(t, d)))
            return arith('+', k, t)

        def ru(L):
            ks = [k for k in L.st.mem if L.local(k) and
                  isinstance(L.st.mem[k], Arr) and L.st.mem[k].w == 32]
            if len(ks) != 1:
                raise ShapeMismatch('expected one word array')
            return ks[0]

        def inv0(L):
            c = L.ex.ctx
            rr = ru(L)

            def b(L, j):
                return And(Implies(And(lt(j, N - 1), lt(j, L.i)), z64(L.rd(rr, j)) == J(c, j)),
                           Implies(And(lt(j, N), Not(lt(j, L.i))), L.rd(rr, j) == R(j)))
            return [('partners so far', Forall(1, b, [(rr, None)]))]

        def inv1(L):
            i = z64(L.i)

            def b(L, j):
                v = z64(L.rd(pm, j))
                return Implies(lt(j, N), And(v == PI(i, j), lt(v, N), QI(i, v) == j))
            return [('permutation after i swaps', Forall(1, b, [(pm, None)]))]

        def head1(L):
            c = L.ex.ctx
            i = z64(L.i)
            D['i'], D['L'] = i, L
            L.rd(pm, i)
            L.rd(pm, J(c, i))
        V = Verif(cfg, 'monomial', 'yt_shuffle_state', stream_contracts(cfg),
                  {(0,): LoopSpec(inv0), (1,): LoopSpec(inv1, head=head1)})
        oc = V.ex.check_inv

        def step(c, j):
            """defining equations of PI(i+1,.) and QI(i+1,.)"""
            i = D['i']
            ji = J(c, i)
            i1 = arith('+', i, I(1))
            a, b = PI(i, i), PI(i, ji)
            c.fact(PI(i1, j) == z3.If(j == i, b, z3.If(j == ji, a, PI(i, j))))

        def stepq(c, v):
            i = D['i']
            ji = J(c, i)
            i1 = arith('+', i, I(1))
            a, b = PI(i, i), PI(i, ji)
            c.fact(QI(i1, v) == z3.If(v == a, ji, z3.If(v == b, i, QI(i, v))))

        def check_inv(st, L, iv, label):
            if isinstance(iv, Forall) and label.startswith('loop1'):
                b0 = iv.body
                pres = 'preserve' in label

                def bb(L, x):
                    c = L.ex.ctx
                    if pres:
                        D['L'].rd(pm, x)
                        step(c, x)
                        stepq(c, z64(L.rd(pm, x)))
                    else:
                        c.fact(PI(I(0), x) == z64(V.rd0(x)))
                        c.fact(QI(I(0), z64(V.rd0(x))) == V.q0(x))
                    return b0(L, x)
                iv = Forall(iv.n, bb, iv.trig)
            return oc(st, L, iv, label)
        V.ex.check_inv = check_inv
        stp = V.obj('st', ty=Ty('struct', fields=[], tag='s'))
        V.st.mem[(sst, ('$id',))] = ID
        V.st.mem[(sst, ('$pos',))] = P0
        perm = V.array('perm', w, N)
        V.gen(pm, lambda i: Implies(lt(i, N), z64(V.rd(pm, i)) == i))     # identity on entry
        a0 = V.st.mem[pm]
        V.rd0 = lambda x: a0.read(V.ctx, [x])
        V.q0 = lambda x: x
        ret, st = V.call([stp, perm])
        c = V.ctx

        def goal(j):
            v = z64(V.rd(pm, j, st=st))
            i = I(N - 1)
            return And(v == PI(i, j), lt(v, N), QI(i, v) == j)
        V.forall(st, 'Fisher-Yates permutation of the stream, a bijection', lambda j: lt(j, N), goal)
        V.prove(st, '4N bytes consumed', st.mem[(sst, ('$pos',))] == P0 + 4 * N)
        V.discharge(r)
    return u


def u_expand(cfg, fname, parts):
    """parts: [(argument name, bytes)] absorbed in order"""
    @unit(cfg, fname)
    def u(cfg, p, r):
        N = p.N
        rc, rp = H('res', 'coefficients'), H('res', 'permutation')

        def inv(L):
            return [('identity so far', Forall(1, lambda L, j: Implies(
                And(lt(j, N), lt(j, L.i)), z64(L.rd(rp, j)) == j), [(rp, None)]))]
        log = StreamLog()
        V = Verif(cfg, 'monomial', fname, {**stream_contracts(cfg, log), **SAMPLERS, 'yt_shuffle_state': c_shuffle(p)},
                  {(0,): LoopSpec(inv)})
        res = V.obj('res', 'monomial_t')
        args, bs = [res], []
        for nm, k in parts(p):
            if nm == 'round':
                t = z3.BitVec('round', 16)
                args.append(t)
                bs += [z3.Extract(7, 0, t), z3.Extract(15, 8, t)]
            else:
                args.append(V.array(nm, 8, k, readonly=True))
                a = V.st.mem[(('H', nm), ())]
                bs += [a.read(V.ctx, [I(q)]) for q in range(k)]
        ret, st = V.call(args)
        c = V.ctx
        i = content_id(V.ex, lambda c_, k: bs[num(k)], len(bs))
        from common import samp_fn
        V.forall(st, 'coefficients are the first N nonzero elements of the stream', lambda j: lt(j, N),
                 lambda j: And(V.rd(rc, j, st=st) == samp_read(c, 'STAR', i, I(0), j), nonzero(V.rd(rc, j, st=st))))
        pos = samp_fn('STAR')[1](i, I(0), I(N))

        def goal(j):
            v = z64(V.rd(rp, j, st=st))
            return And(v == shuf_read(c, p, i, pos, j), lt(v, N), SHUFINV(i, pos, v) == j)
        V.forall(st, 'permutation is the shuffle of the following words, a bijection', lambda j: lt(j, N), goal)
        V.discharge(r)
    return u


def u_expand_eph(cfg):
    return u_expand(cfg, 'monomial_mat_seed_expand_salt_rnd', lambda p: [('seed', p.S), ('salt', p.H), ('round', 2)])


def u_expand_prv(cfg):
    return u_expand(cfg, 'monomial_mat_seed_expand_prikey', lambda p: [('seed', 2 * p.S)])


def u_rnd(cfg):
    """monomial_mat_rnd: the same drawing from the global source"""
    @unit(cfg, 'monomial_mat_rnd')
    def u(cfg, p, r):
        N = p.N
        rc, rp = H('res', 'coefficients'), H('res', 'permutation')

        def inv(L):
            return [('identity so far', Forall(1, lambda L, j: Implies(
                And(lt(j, N), lt(j, L.i)), z64(L.rd(rp, j)) == j), [(rp, None)]))]
        V = Verif(cfg, 'monomial', 'monomial_mat_rnd', {**stream_contracts(cfg), **PLATFORM_SAMPLERS, 'yt_shuffle_state': c_shuffle(p)},
                  {(0,): LoopSpec(inv)})
        i, p0 = platform_stream(V)
        res = V.obj('res', 'monomial_t')
        ret, st = V.call([res])
        c = V.ctx
        from common import samp_fn
        V.forall(st, 'coefficients are the next N nonzero elements of the source', lambda j: lt(j, N),
                 lambda j: And(V.rd(rc, j, st=st) == samp_read(c, 'STAR', i, p0, j), nonzero(V.rd(rc, j, st=st))))
        pos = samp_fn('STAR')[1](i, p0, I(N))

        def goal(j):
            v = z64(V.rd(rp, j, st=st))
            return And(v == shuf_read(c, p, i, pos, j), lt(v, N), SHUFINV(i, pos, v) == j)
        V.forall(st, 'permutation is the shuffle of the following words, a bijection', lambda j: lt(j, N), goal)
        V.prove(st, 'nothing else is drawn', st.mem[(PLATFORM, ('$pos',))] == pos + 4 * N)
        V.discharge(r)
    return u
