"""Contracts of the seed tree (seedtree.c): derivation, disclosed path, reconstruction."""
import z3
from vcg import *
from harness import *
from common import *
from spec_monomial import H, lt, unit
from spec_commit import skolem
from cbuiltins import bytes_reader, fill_bytes


class Tree:
    """ghost seed tree over the hidden-round flags `idx` (Arr of 0/1), root seed and salt"""

    def __init__(self, V, idx=None, root=None, salt=None):
        self.V, self.p, self.ctx, self.idx, self.root, self.salt = V, V.p, V.ctx, idx, root, salt
        self.FL = z3.Function('FLAG', B64, z3.BoolSort())      # covers a hidden round
        self.NODE = z3.Function('NODE', B64, B64, B8)          # byte k of the seed of node j
        self.ID = z3.Function('NODEID', B64, B64)              # stream of salt || seed of node j
        self.PC = z3.Function('PUBBEFORE', B64, B64)           # published nodes before i
        self.KTH = z3.Function('KTHPUB', B64, B64)
        self.L, self.M, self.S = self.p.LEAVES, self.p.NODES, self.p.S
        self.TOT = self.PC(I(self.M))

    def once(self, tag, *ts):
        k = (tag,) + tuple(t.get_id() for t in ts)
        if k in self.ctx.inst_done:
            return False
        self.ctx.inst_done.add(k)
        self.ctx.keep.append(ts)
        return True

    @staticmethod
    def par(j):
        return z3.LShR(j - 1, 1)

    def flag(self, j, unfold=True):
        """FLAG(j) with its definition"""
        t = self.FL(j)
        if unfold and self.once('flag', j):
            L, M = self.L, self.M
            leaf = z3.UGE(j, I(L - 1))
            h = arith('-', j, I(L - 1))
            hid = self.idx.read(self.ctx, [h]) if self.idx is not None else None
            if hid is not None:
                self.ctx.fact(Implies(And(lt(j, M), leaf), t == And(lt(h, self.p.T), hid == 1)))
            self.ctx.fact(Implies(And(lt(j, M), Not(leaf)), t == Or(self.FL((j << 1) + 1), self.FL((j << 1) + 2))))
        return t

    def pub(self, j):
        return And(Not(self.FL(j)), j != 0, self.FL(self.par(j)))

    def count(self, i):
        """PUBBEFORE(i) with its definition around i"""
        t = self.PC(i)
        if self.once('pc', i):
            nx = self.PC(i + 1)
            self.ctx.fact(Implies(lt(i, self.M), And(nx == t + Ite(self.pub(i), I(1), I(0)), z3.ULE(t, i), z3.ULE(nx, self.TOT), z3.ULE(self.TOT, I(self.M)),
                                                     Implies(self.pub(i), self.KTH(t) == i))))
        return t

    def kth(self, m):
        c = self.KTH(m)
        if self.once('kth', c):
            self.ctx.fact(Implies(z3.ULT(m, self.TOT), And(lt(c, self.M), self.pub(c), self.PC(c) == m)))
        return c

    def start(self):
        self.ctx.fact(self.PC(I(0)) == 0)
        self.ctx.fact(z3.ULE(self.TOT, I(self.M)))

    def node(self, j, k):
        """byte k of node j with the definition of the derivation"""
        t = self.NODE(j, k)
        if self.once('node', j, k):
            par = self.par(j)
            odd = z3.Extract(0, 0, j) == 1
            self.ctx.fact(Implies(And(j != 0, lt(j, self.M), lt(k, self.S)),
                                  t == OUT(self.ID(par), Ite(odd, k, k + self.S))))
            if self.root is not None and not (is_num(j) and num(j)):
                self.ctx.fact(Implies(And(j == 0, lt(k, self.S)), t == self.root.read(self.ctx, [k])))
        return t

    def hidden_exists(self, h):
        """round h is hidden: all ancestors of its leaf are flagged, so the root is"""
        j = h + (self.L - 1)
        fs = [self.flag(j)]
        for _ in range(self.L.bit_length() - 1):
            j = self.par(j)
            fs.append(self.flag(j))
        return fs

    # ---- contracts
    def csprng(self, current, st0=None):
        """initialize_csprng(salt || seed of node current(st)) and the stream it starts"""
        def c(ex, st, av, fr):
            s, seed, n = av
            if not is_num(n):
                n = z3.simplify(n)
            if not is_num(n):
                raise Unsupported('seed length is not constant')
            ex.oblige(st, f'absorbs salt and seed, nothing else {ex.site}', z3.BoolVal(num(n) == self.p.H + self.S), 'pre')
            fn = bytes_reader(ex, st, seed, n)
            e = current(st)
            for lo in range(0, self.p.H, 8):
                ex.oblige(st, f'salt bytes {lo} {ex.site}', And(*[fn(ex.ctx, I(k)) == self.salt.read(ex.ctx, [I(k)]) for k in range(lo, lo + 8)]), 'pre')
            for lo in range(0, self.S, 8):
                ex.oblige(st, f'seed bytes {lo} of the node being expanded {ex.site}',
                          And(*[fn(ex.ctx, I(self.p.H + k)) == self.NODE(e, I(k)) for k in range(lo, lo + 8)]), 'pre')
            for key, v in ((sid(s), self.ID(e)), (spos(s), I(0))):
                st.mem[key] = v
                ex.log(key)
        return c


def salted_buffers(V, L, salt):
    """local byte buffers of the length of a CSPRNG input keep the salt in front"""
    p = V.p
    out = []
    for k in list(L.st.mem):
        if not L.local(k) or k[1] != ():
            continue
        ty = V.ex.objty.get(k[0])
        if ty is None or ty.k != 'array' or ty.to.k != 'bv' or ty.to.w != 8:
            continue
        if V.ex.layout(ty)[0].dims != [p.H + p.S]:
            continue
        out.append((f'salt in front of {k[0][-1].split("::")[-1]}',
                    Forall(1, lambda L, x, k=k: Implies(lt(x, p.H), L.rd(k, x) == salt.read(V.ctx, [x])), [(k, None)])))
    return out


def uses_csprng(V, T, current):
    a = '128' if V.cfg.cat == '1' else '256'
    V.ex.contracts.update({'initialize_csprng': T.csprng(current), f'shake{a}_inc_squeeze': c_squeeze})


def u_generate(cfg):
    @unit(cfg, 'generate_seed_tree_from_root')
    def u(cfg, p, r):
        V = Verif(cfg, 'seedtree', 'generate_seed_tree_from_root')
        tree = V.rows('seed_tree', p.NODES, p.S)
        root = V.array('root_seed', 8, p.S, readonly=True)
        salt = V.array('salt', 8, p.H, readonly=True)
        kt = (tree.obj, ())
        T = Tree(V, None, V.st.mem[(root.obj, ())], V.st.mem[(salt.obj, ())])
        cur = {}

        def inv(L):
            i = z64(L.i)
            cur['i'] = L.ref_i

            def b(L, j, k):
                return Implies(And(z3.ULT(j, (z64(L.i) << 1) + 1), lt(k, p.S)), L.rd(kt, j, k) == T.node(j, k))
            return salted_buffers(V, L, T.salt) + [('derived so far', Forall(2, b, [(kt, None)]))]
        uses_csprng(V, T, lambda st: z64(st.mem[cur['i']]))
        V.ex.loops = {(0,): LoopSpec(inv)}
        ret, st = V.call([tree, root, salt])
        V.forall(st, 'every node is derived from its parent and the salt', lambda j, k: And(lt(j, p.NODES), lt(k, p.S)),
                 lambda j, k: V.rd(kt, j, k, st=st) == T.node(j, k), 2)
        V.discharge(r)
    return u


def hidden(V):
    """the array of hidden-round flags and some hidden round"""
    p = V.p
    idx = V.array('indices_to_publish', 8, p.T, readonly=True)
    ai = V.st.mem[(idx.obj, ())]
    ai.gens.append(lambda ix: Implies(lt(ix[0], p.T), z3.ULE(ai.f(*ix), bv(1, 8))))
    h = fresh(64, 'hidden')
    V.assume(And(lt(h, p.T), ai.read(V.ctx, [h]) == 1))
    return idx, ai, h


def flags_loop(V, T, D):
    """the loop that fills the flags of the inner nodes, downwards"""
    def inv(L):
        if L.info['ivar'] is None:
            raise ShapeMismatch('no induction variable')
        k = flags_ref(V, L)

        def b(L, j):
            i = L.ex.term(L.st, L.ref_i)
            i64 = sext(i, 64) if L.ex.objty[L.ref_i[0]].signed else z64(i)
            return Implies(And(i64 < j, z3.ULT(j, I(T.M))), L.rd(k, j) == Ite(T.flag(j), bv(1, 8), bv(0, 8)))
        return [('flags of the nodes done', Forall(1, b, [(k, None)]))]
    return LoopSpec(inv)


def flags_ref(V, L):
    """the array the node flags live in: the only local byte array with one entry per node"""
    c = set()
    for k in L.st.mem:
        if not (isinstance(k[0], tuple) and k[0][0].startswith('f') and k[1] == ()):
            continue
        ty = V.ex.objty.get(k[0])
        if ty is not None and ty.k == 'array' and ty.to.k == 'bv' and ty.to.w == 8 and V.ex.layout(ty)[0].dims == [V.p.NODES]:
            c.add(k)
    if len(c) != 1:
        raise ShapeMismatch('node flags not found')
    return c.pop()


def u_path(cfg):
    @unit(cfg, 'seed_tree_path')
    def u(cfg, p, r):
        V = Verif(cfg, 'seedtree', 'seed_tree_path')
        idx, ai, h = hidden(V)
        T = Tree(V, ai)
        T.start()
        T.hidden_exists(h)
        tree = V.rows('seed_tree', p.NODES, p.S, readonly=True)
        stor = V.rows('seed_storage', T.TOT, p.S)
        kt, ks = (tree.obj, ()), (stor.obj, ())
        root = V.ex.oblige(V.st, 'some round is hidden, so the root is flagged', T.FL(I(0)), 'lemma')
        V.assume(T.FL(I(0)))

        def flags(L):
            k = flags_ref(V, L)
            return [('flags', Forall(1, lambda L, j: Implies(lt(j, p.NODES), L.rd(k, j) == Ite(T.flag(j), bv(1, 8), bv(0, 8))), [(k, None)]))]

        def inv(L):
            i = z64(L.i)
            T.count(i)

            def b(L, m, k):
                c = T.kth(m)
                return Implies(And(z3.ULT(m, T.PC(z64(L.i))), lt(k, p.S)), L.rd(ks, m, k) == V.rd(kt, c, k))
            return [('published so far', z64(L.counter('num_seeds_published')) == T.PC(i)), ('stored so far', Forall(2, b, [(ks, None)]))]
        V.ex.loops = {(0,): flags_loop(V, T, {}), (1,): LoopSpec(inv)}
        ret, st = V.call([tree, idx, stor])
        V.prove(st, 'number of published seeds', z64(ret) == T.TOT)
        V.forall(st, 'the m-th published seed is the seed of the m-th published node', lambda m, k: And(z3.ULT(m, T.TOT), lt(k, p.S)),
                 lambda m, k: V.rd(ks, m, k, st=st) == V.rd(kt, T.kth(m), k), 2)
        V.discharge(r)
    return u


def u_rebuild(cfg):
    @unit(cfg, 'rebuild_seed_tree_leaves')
    def u(cfg, p, r):
        V = Verif(cfg, 'seedtree', 'rebuild_seed_tree_leaves')
        idx, ai, h = hidden(V)
        salt = V.array('salt', 8, p.H, readonly=True)
        T = Tree(V, ai, None, V.st.mem[(salt.obj, ())])
        T.start()
        T.hidden_exists(h)
        tree = V.rows('seed_tree', p.NODES, p.S)
        stor = V.rows('stored_seeds', T.TOT, p.S, readonly=True)
        kt, ks = (tree.obj, ()), (stor.obj, ())
        V.ex.oblige(V.st, 'some round is hidden, so the root is flagged', T.FL(I(0)), 'lemma')
        V.assume(T.FL(I(0)))
        a0 = V.st.mem[ks]
        a0.gens.append(lambda ix: Implies(And(z3.ULT(ix[0], T.TOT), lt(ix[1], p.S)), a0.f(*ix) == T.node(T.kth(ix[0]), ix[1])))
        cur = {}

        def inv(L):
            i = z64(L.i)
            T.count(i)
            cur['i'] = L.ref_i

            def b(L, j, k):
                T.flag(j)
                i = z64(L.i)
                q = T.par(j)
                known = Or(z3.ULT(j, i), And(j != 0, z3.ULT(q, i), Not(T.flag(q))))
                return Implies(And(lt(j, p.NODES), lt(k, p.S), Not(T.FL(j)), known), L.rd(kt, j, k) == T.node(j, k))
            return salted_buffers(V, L, T.salt) + [('seeds used so far', z64(L.counter('nodes_used')) == T.PC(i)), ('recovered so far', Forall(2, b, [(kt, None)]))]
        uses_csprng(V, T, lambda st: z64(st.mem[cur['i']]))
        V.ex.loops = {(0,): flags_loop(V, T, {}), (1,): LoopSpec(inv)}
        ret, st = V.call([tree, idx, stor, salt])
        V.prove(st, 'number of used seeds', z64(ret) == T.TOT)

        def leaf(h, k):
            j = arith('+', h, I(p.LEAVES - 1))
            T.flag(j)
            return V.rd(kt, j, k, st=st) == T.node(j, k)
        V.forall(st, 'every disclosed leaf is the seed the signer derived', lambda h, k: And(lt(h, p.T), lt(k, p.S), ai.read(V.ctx, [h]) == 0), leaf, 2)
        V.discharge(r)
    return u


# ------------------------------------------------------------------ C15
def u_secrecy(cfg):
    @unit(cfg, 'published nodes')
    def u(cfg, p, r):
        V = Verif(cfg, 'seedtree', 'seed_tree_path')
        idx, ai, h = hidden(V)
        T = Tree(V, ai)
        T.start()
        depth = p.LEAVES.bit_length() - 1
        st = V.st
        def lemma(label, f):
            """proved once for arbitrary arguments, then used as a fact"""
            V.ex.oblige(st, label, f, 'lemma')
            V.assume(f)

        def chain(j, what):
            """ancestors of j; facts: a flagged node has a flagged parent (shown here for each of them)"""
            c = [j]
            T.flag(j)
            for q in range(1, depth + 1):
                a = fresh(64, f'anc{q}')
                V.assume(a == T.par(c[-1]))
                c.append(a)
                T.flag(a)
                lemma(f'{what}: if ancestor {q - 1} is flagged, so is ancestor {q}', Implies(And(c[q - 1] != 0, lt(c[q - 1], p.NODES), T.FL(c[q - 1])), T.FL(c[q])))
            return c
        j = fresh(64, 'node')
        V.assume(lt(j, p.NODES))
        ch = chain(j, 'any node')
        # a hidden leaf is neither published nor below a published node
        ac = chain(h + (p.LEAVES - 1), 'hidden leaf')
        for q, a in enumerate(ac):
            lo, hi = (1 << (depth - q)) - 1, (1 << (depth - q + 1)) - 1
            lemma(f'hidden leaf: ancestor {q} is on level {depth - q}', And(z3.UGE(a, I(lo)), lt(a, hi)))
            lemma(f'hidden leaf: ancestor {q} is flagged', T.FL(a))
            V.ex.oblige(st, f'ancestor {q} of a hidden leaf is not published', Not(T.pub(a)), 'lemma')
        # published nodes are pairwise unrelated
        for q in range(1, depth + 1):
            lemma(f'ancestor {q} of a published node is flagged', Implies(And(T.pub(j), *[c != 0 for c in ch[:q]]), T.FL(ch[q])))
            V.ex.oblige(st, f'ancestor {q} of a published node is not published', Implies(And(T.pub(j), *[c != 0 for c in ch[:q]]), Not(T.pub(ch[q]))), 'lemma')
        # a disclosed leaf is, or is below, a published node
        lf = fresh(64, 'disclosed')
        V.assume(And(z3.UGE(lf, I(p.LEAVES - 1)), lt(lf, p.LEAVES - 1 + p.T)))
        dc = chain(lf, 'disclosed leaf')
        for q, a in enumerate(dc):
            lo, hi = (1 << (depth - q)) - 1, (1 << (depth - q + 1)) - 1
            lemma(f'disclosed leaf: ancestor {q} is on level {depth - q}', And(z3.UGE(a, I(lo)), lt(a, hi)))
        for q in range(depth):
            lemma(f'disclosed leaf: published up to ancestor {q}, or ancestor {q + 1} is not flagged',
                  Implies(Not(T.FL(lf)), Or(*[T.pub(a) for a in dc[:q + 1]], Not(T.FL(dc[q + 1])))))
        V.ex.oblige(st, 'every disclosed leaf is below a published node', Implies(Not(T.FL(lf)), Or(*[T.pub(a) for a in dc])), 'lemma')
        V.discharge(r)
    return u


def max_published(p):
    """largest number of published nodes over all choices of exactly W hidden rounds: for a subtree with a given number
       of real leaves, best[w] over its splits; a flagged parent publishes each of its unflagged children"""
    memo = {}

    def best(n, real):
        """n leaves of which the first `real` are rounds; list over w (None: impossible)"""
        k = (n, real)
        if k in memo:
            return memo[k]
        if n == 1:
            r = {0: 0, 1: 0} if real else {0: 0}
        else:
            m = n // 2
            a, b = best(m, min(real, m)), best(m, max(0, real - m))
            r = {0: 0}
            for x, u in a.items():
                for y, v in b.items():
                    w = x + y
                    if 0 < w <= p.W:
                        t = u + v + (x == 0) + (y == 0)
                        if t > r.get(w, -1):
                            r[w] = t
        memo[k] = r
        return r
    return best(p.LEAVES, p.T)[p.W], memo


def u_space(cfg):
    @unit(cfg, 'space for published seeds')
    def u(cfg, p, r):
        V = Verif(cfg, 'LESS', 'LESS_sign')
        ty = V.type('sign_t')
        f = dict(ty.fields)
        lay = [l for l in V.ex.layout(ty) if l.path == ('seed_storage',)]
        if len(lay) != 1 or len(lay[0].dims) != 1:
            raise ShapeMismatch('seed_storage is not a byte array')
        n = lay[0].dims[0]
        most, memo = max_published(p)
        # the table is a certificate: these are the hypotheses of lemma Space.bound (lemmas/Space.lean)
        sp = 0
        for (m, real), tab in memo.items():
            V.ex.oblige(V.st, f'table of {m} leaves, {real} rounds: nothing hidden, nothing published below', z3.BoolVal(tab.get(0) == 0), 'lemma')
            if m == 1:
                V.ex.oblige(V.st, f'table of a leaf, {real} rounds', z3.BoolVal(real <= 1 and (not real or tab.get(1) == 0)), 'lemma')
                continue
            h = m // 2
            a, b = memo[(h, min(real, h))], memo[(h, max(0, real - h))]
            ok = all(tab.get(x + y, -1) >= u + v + (x == 0) + (y == 0) for x, u in a.items() for y, v in b.items() if 0 < x + y <= p.W)
            sp += 1
            V.ex.oblige(V.st, f'bound for a subtree of {m} leaves, {real} rounds', z3.BoolVal(ok), 'lemma')
        V.ex.oblige(V.st, f'{most} seeds and the counting byte fit {n} bytes', z3.BoolVal(most * p.S + 1 <= n), 'post')
        V.ex.oblige(V.st, f'{most} seeds are at most the maximum of the parameter set', z3.BoolVal(most <= p.MAXB // p.S), 'post')
        V.ex.oblige(V.st, 'the count fits a byte', z3.BoolVal(most < 256), 'post')
        V.discharge(r)
    return u
