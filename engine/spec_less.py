"""Contracts of LESS_keygen, LESS_sign and LESS_verify (LESS.c) over the contracts of the functions they call."""
import z3
from vcg import *
from harness import *
from common import *
from spec_monomial import H, lt, unit
from spec_commit import skolem
from spec_codes import PivotSet
from cbuiltins import bytes_reader, fill_bytes, span_check


def fn(name, n, w):
    """n-ary specification function with w-bit values"""
    f = z3.Function(name, *([B64] * n), z3.BitVecSort(w) if w != 'bool' else z3.BoolSort())
    return lambda *a: f(*[z64(I(x)) for x in a])


class Part:
    """a field of a structure behind a pointer, or n bytes behind a pointer"""

    def __init__(self, st, ptr, path, dims):
        self.key = (ptr.obj, tuple(ptr.path) + tuple(path))
        if self.key not in st.mem:
            raise Unsupported(f'no field {".".join(path)} behind {ptr}')
        self.pre, self.dims = list(ptr.idxs), dims
        a = st.mem[self.key]
        if not isinstance(a, Arr) or a.nd != len(self.pre) + len(dims):
            raise Unsupported(f'shape of {ptr}')

    def read(self, ctx, st, ix):
        return st.mem[self.key].read(ctx, self.pre + list(ix))

    def inside(self, ix):
        return And(*[lt(x, d) for x, d in zip(ix, self.dims)])

    def put(self, ex, st, want):
        if self.key[0] in ex.readonly:
            ex.oblige(st, f'frame {self.key[0][-1]} {ex.site}', FALSE, 'frame')
        old, pre, n = st.mem[self.key], self.pre, len(self.pre)
        for q, x in enumerate(pre):
            d = ex.leafinfo(*self.key).dims[q]
            ex.oblige(st, f'in-bounds {self.key[0][-1].split("::")[-1]}[{q}] {ex.site}', z3.ULT(x, I(d)), 'safety')

        def rd(c, ix):
            cnd = And(*[Eq(a, b) for a, b in zip(ix[:n], pre)], self.inside(ix[n:]))
            if z3.is_false(cnd):
                return old.read(c, ix)
            return Ite(cnd, want(*ix[n:]), old.read(c, ix))
        st.mem[self.key] = Lam(rd, old.nd, old.w)
        ex.log(self.key)


class Objects:
    """shapes of the data types of the scheme"""

    def __init__(self, p):
        self.p = p

    def monomial(self, st, ptr):
        return [Part(st, ptr, ('coefficients',), [self.p.N]), Part(st, ptr, ('permutation',), [self.p.N])]

    def action(self, st, ptr):
        return [Part(st, ptr, ('coefficients',), [self.p.K]), Part(st, ptr, ('permutation',), [self.p.K])]

    def full(self, st, ptr):
        return [Part(st, ptr, ('values',), [self.p.K, self.p.N])]

    def rest(self, st, ptr):
        return [Part(st, ptr, ('values',), [self.p.K, self.p.N - self.p.K])]

    def rref(self, st, ptr):
        return [Part(st, ptr, ('values',), [self.p.K, self.p.N - self.p.K]), Part(st, ptr, ('column_pos',), [self.p.N - self.p.K])]


def same(ex, st, label, parts, want):
    """obligation: the parts hold the given contents"""
    for q, (a, f) in enumerate(zip(parts, want)):
        skolem(ex, st, f'{label}{"" if len(parts) == 1 else " (" + a.key[1][-1] + ")"} {ex.site}', lambda *ix: a.inside(ix),
               lambda *ix: a.read(ex.ctx, st, ix) == f(*ix), len(a.dims))


def put(ex, st, parts, want):
    for a, f in zip(parts, want):
        a.put(ex, st, f)


def same_bytes(ex, st, label, ptr, n, want):
    rd = bytes_reader(ex, st, ptr, I(n))
    skolem(ex, st, f'{label} {ex.site}', lambda k: lt(k, n), lambda k: rd(ex.ctx, k) == want(k), 1)


class Chain:
    """running hash: HABS(h, item) after absorbing the item"""

    def __init__(self, V):
        self.V, self.p = V, V.p
        self.HABS = fn('HABSORB', 2, 64)
        self.COM = fn('OBJECT', 1, 64)          # identity of the commitment object of round i
        self.MSG, self.SALT = z3.BitVec('MESSAGE', 64), z3.BitVec('SALTSTRING', 64)
        self.INIT = z3.BitVec('HINIT', 64)
        self.HCH = fn('HCHAIN', 1, 64)
        self.DG = fn('DIGEST', 2, 8)
        self.final = self.HABS(self.HABS(self.HCH(self.p.T), self.MSG), self.SALT)

    def step(self, i):
        self.V.ctx.fact(self.HCH(i + 1) == self.HABS(self.HCH(i), self.COM(i)))

    def start(self):
        self.V.assume(self.HCH(0) == self.INIT)

    def contracts(self, V, m, mlen, salt, vparts, vwant, cur):
        """vwant(i) -> content functions of the object of round i"""
        bits = {16: 256, 24: 384, 32: 512}[self.p.S]

        def hk(s):
            return (s.obj, s.path + ('$h',))

        def setup(ex, st, av, fr):
            st.mem[hk(av[0])] = self.INIT
            ex.log(hk(av[0]))

        def absorb(ex, st, av, fr):
            s, q, n = av
            if hk(s) not in st.mem:
                raise Unsupported('absorb into an uninitialised hash')
            h = st.mem[hk(s)]
            n = z3.simplify(z64(n))
            if q.obj == m.obj:
                ex.oblige(st, f'the whole message is absorbed {ex.site}', And(n == mlen, *[x == 0 for x in q.idxs]), 'pre')
                h = self.HABS(h, self.MSG)
            elif ex.actual_ty(q).k == 'bv' and is_num(n) and num(n) == self.p.H:
                same_bytes(ex, st, 'the whole salt is absorbed', q, self.p.H, salt)
                h = self.HABS(h, self.SALT)
            else:
                ex.oblige(st, f'the whole object is absorbed {ex.site}', n == self.p.K * (self.p.N - self.p.K), 'pre')
                i = cur(st)
                same(ex, st, 'the commitment object of the round is absorbed', vparts(st, q), vwant(i))
                h = self.HABS(h, self.COM(i))
            st.mem[hk(s)] = h
            ex.log(hk(s))

        def fin(ex, st, av, fr):
            out, s = av
            h = st.mem[hk(s)]
            fill_bytes(ex, st, out, I(self.p.H), lambda c, k: self.DG(h, k))
            del st.mem[hk(s)]
        def other(ex, st, av, fr):
            ex.oblige(st, f'the digest is SHA3-{bits} {ex.site}', z3.BoolVal(False), 'pre')
        V.ex.contracts.update({f'sha3_{b}_inc_{w}': other for b in (256, 384, 512) for w in ('init', 'absorb', 'finalize')})
        V.ex.contracts.update({f'sha3_{bits}_inc_init': setup, f'sha3_{bits}_inc_absorb': absorb, f'sha3_{bits}_inc_finalize': fin})

    def value(self, st):
        ks = [k for k in st.mem if k[1] and k[1][-1] == '$h']
        if len(ks) != 1:
            raise ShapeMismatch('one hash state expected')
        return st.mem[ks[0]]


class Ranks:
    """challenge CHAL(p) with the number RK(i) of hidden rounds before i and the m-th hidden round KTH(m)"""

    def __init__(self, V):
        self.V, self.p, self.ctx = V, V.p, V.ctx
        self.CH, self.RK, self.KTH = fn('CHALLENGE', 1, 8), fn('HIDDENBEFORE', 1, 64), fn('KTHHIDDEN', 1, 64)

    def ch(self, i):
        t = self.CH(i)
        k = ('chal', t.get_id())
        if k not in self.ctx.inst_done:
            self.ctx.inst_done.add(k)
            self.ctx.keep.append((t,))
            r, n = self.RK(i), self.RK(i + 1)
            self.ctx.fact(Implies(lt(i, self.p.T), And(ult(t, self.p.NK), n == r + Ite(t != 0, I(1), I(0)), z3.ULE(r, i), z3.ULE(n, I(self.p.W)),
                                                     Implies(t != 0, self.KTH(r) == i))))
        return t

    def kth(self, m):
        t = self.KTH(m)
        k = ('kthh', t.get_id())
        if k not in self.ctx.inst_done:
            self.ctx.inst_done.add(k)
            self.ctx.keep.append((t,))
            self.ctx.fact(Implies(lt(m, self.p.W), And(lt(t, self.p.T), self.CH(t) != 0, self.RK(t) == m)))
        return t

    def start(self):
        self.ctx.fact(And(self.RK(0) == 0, self.RK(self.p.T) == self.p.W))

    def contract(self, digest):
        def c(ex, st, av, fr):
            x, d = av
            rd = bytes_reader(ex, st, x, I(self.p.T))
            skolem(ex, st, f'challenge array is zero {ex.site}', lambda k: lt(k, self.p.T), lambda k: rd(ex.ctx, k) == 0, 1)
            same_bytes(ex, st, 'challenge from the digest of all rounds, message and salt', d, self.p.H, digest)
            fill_bytes(ex, st, x, I(self.p.T), lambda c_, k: self.ch(k))
            self.key = (x.obj, x.path)
        return c


def stream_at(V, g='platform_csprng_state'):
    """give the global randomness source a name"""
    o = ('G', g)
    if g not in V.prog.syms:
        raise Unsupported('platform randomness not found')
    V.ex.init_global(o, g, V.st)
    i = z3.BitVec('PLATFORM', 64)
    V.st.mem[(o, ('$id',))], V.st.mem[(o, ('$pos',))] = i, I(0)
    return i, (o, ('$pos',))


class Keys:
    """private monomials: stream of the private seed; code from the public seed"""

    def __init__(self, V):
        self.V, self.p = V, V.p
        p = V.p
        self.SKL = 2 * p.S
        self.PRC, self.PRP = fn('PRIVCOEF', 2, 8), fn('PRIVPERM', 2, p.PW)
        self.C0V, self.C0P, self.FULL = fn('CODEVAL', 2, 8), fn('CODEPOS', 1, p.PW), fn('CODEFULL', 2, 8)
        self.SKID = z3.BitVec('SECRETSTREAM', 64)
        self.O = Objects(p)

    def c_init(self, sk):
        """the only stream started here is the one of the private seed"""
        def c(ex, st, av, fr):
            s, seed, n = av
            n = z3.simplify(z64(n))
            ex.oblige(st, f'stream of the whole private seed {ex.site}', n == self.SKL, 'pre')
            same_bytes(ex, st, 'stream of the private seed', seed, self.SKL, sk)
            for key, v in ((sid(s), self.SKID), (spos(s), I(0))):
                st.mem[key] = v
                ex.log(key)
        return c

    def c_prikey(self, which):
        """which(st) -> number (from 0) of the private monomial"""
        def c(ex, st, av, fr):
            q, seed = av
            v = which(st)
            same_bytes(ex, st, 'seed of the selected private monomial', seed, self.SKL, lambda k: OUT(self.SKID, arith('+', v * self.SKL, k)))
            put(ex, st, self.O.monomial(st, q), [lambda j: self.PRC(v, j), lambda j: self.PRP(v, j)])
        return c

    def c_code(self, seedbytes):
        def c(ex, st, av, fr):
            g, seed = av
            same_bytes(ex, st, 'code from the public seed', seed, self.p.S, seedbytes)
            put(ex, st, self.O.rref(st, g), [self.C0V, self.C0P])
        return c

    def c_full(self, ex, st, av, fr):
        f, c = av
        same(ex, st, 'expands the public code', self.O.rref(st, c), [self.C0V, self.C0P])
        put(ex, st, self.O.full(st, f), [self.FULL])


def shake(cfg):
    return f'shake{"128" if cfg.cat == "1" else "256"}_inc_squeeze'


def cur_of(cell):
    def f(st):
        if 'i' not in cell:
            raise ShapeMismatch('outside the loop over the rounds')
        return z64(st.mem[cell['i']])
    return f


def local_bytes(V, L, n):
    """local byte arrays with n elements"""
    for k in list(L.st.mem):
        if L.local(k) and k[1] == ():
            ty = V.ex.objty.get(k[0])
            if ty is not None and ty.k == 'array' and ty.to.k == 'bv' and ty.to.w == 8 and V.ex.layout(ty)[0].dims == [n]:
                yield k


# ------------------------------------------------------------------ C19
def u_sign(cfg):
    @unit(cfg, 'LESS_sign')
    def u(cfg, p, r):
        V = Verif(cfg, 'LESS', 'LESS_sign')
        ex, O, K = V.ex, Objects(p), Keys(V)
        sk = V.obj('SK', 'prikey_t', readonly=True)
        sig = V.obj('sig', 'sign_t')
        mlen = fresh(64, 'mlen')
        V.assume(z3.ULT(mlen, I(1 << 62)))
        m = V.array('m', 8, mlen, readonly=True)
        ex.objty[m.obj].to.signed = True
        pid, ppos = stream_at(V)
        asig = lambda f: (sig.obj, (f,))
        sksd, g0 = V.st.mem[(sk.obj, ('compressed_sk',))], V.st.mem[(sk.obj, ('G_0_seed',))]
        # randomness is consumed as: root seed of the tree, then salt
        root = lambda k: OUT(pid, k)
        salt = lambda k: OUT(pid, arith('+', k, I(p.S)))
        TREE = fn('TREE', 1, 8)
        EC, EP, COM, AC, AP = fn('EPHCOEF', 2, 8), fn('EPHPERM', 2, p.PW), fn('COMMIT', 3, 8), fn('ACTCOEF', 2, 8), fn('ACTPERM', 2, p.PW)
        RC, RP, PKD, PATH = fn('RESPCOEF', 2, 8), fn('RESPPERM', 2, p.PW), fn('RESPBYTES', 2, 8), fn('PATHBYTES', 1, 8)
        NPUB = z3.BitVec('NPUB', 32)
        V.assume(z3.ULE(NPUB, bv(p.MAXB // p.S, 32)))
        Ch, Rk = Chain(V), Ranks(V)
        Ch.start()
        Rk.start()
        rounds, resp = {}, {}
        cr, cs = cur_of(rounds), cur_of(resp)

        def tree(ex, st, av, fr):
            t, rt, s = av
            same_bytes(ex, st, 'tree from the root seed', rt, p.S, root)
            same_bytes(ex, st, 'tree from the salt', s, p.H, salt)
            fill_bytes(ex, st, t, I(p.NODES * p.S), lambda c, k: TREE(k))

        def eph(ex, st, av, fr):
            q, seed, s, i = av
            n = cr(st)
            same_bytes(ex, st, 'seed of the leaf of the round', seed, p.S, lambda k: TREE((n + (p.LEAVES - 1)) * p.S + k))
            same_bytes(ex, st, 'ephemeral monomial from the salt', s, p.H, salt)
            ex.oblige(st, f'ephemeral monomial from the round index {ex.site}', i == trunc(n, 16), 'pre')
            put(ex, st, O.monomial(st, q), [lambda j: EC(n, j), lambda j: EP(n, j)])

        def prep(ex, st, av, fr):
            v, a, g, q = av
            n = cr(st)
            same(ex, st, 'commits to the public code', O.full(st, g), [K.FULL])
            same(ex, st, 'under the ephemeral monomial of the round', O.monomial(st, q), [lambda j: EC(n, j), lambda j: EP(n, j)])
            put(ex, st, O.rest(st, v), [lambda i, c: COM(n, i, c)])
            put(ex, st, O.action(st, a), [lambda k: AC(n, k), lambda k: AP(n, k)])

        def path(ex, st, av, fr):
            t, x, out = av
            same_bytes(ex, st, 'path of the tree of this signature', t, p.NODES * p.S, TREE)
            same_bytes(ex, st, 'publishes exactly the rounds with zero challenge', x, p.T, lambda k: Ite(Rk.ch(k) != 0, bv(1, 8), bv(0, 8)))
            span_check(ex, st, out, zext(NPUB, 64) * p.S)
            fill_bytes(ex, st, out, zext(NPUB, 64) * p.S, lambda c, k: PATH(k))
            return NPUB

        def chal(st):
            return z64(Rk.ch(cs(st)))

        def compose(ex, st, av, fr):
            o, q, a = av
            n = cs(st)
            v = chal(st) - 1
            same(ex, st, 'the private monomial the challenge selects', O.monomial(st, q), [lambda j: K.PRC(v, j), lambda j: K.PRP(v, j)])
            same(ex, st, 'the action of the round', O.action(st, a), [lambda k: AC(n, k), lambda k: AP(n, k)])
            put(ex, st, O.action(st, o), [lambda k: RC(n, k), lambda k: RP(n, k)])

        def pack(ex, st, av, fr):
            b, a = av
            n = cs(st)
            same(ex, st, 'encodes the response of the round', O.action(st, a), [lambda k: RC(n, k), lambda k: RP(n, k)])
            fill_bytes(ex, st, b, I(p.AB), lambda c, k: PKD(n, k))
        Ch.contracts(V, m, mlen, salt, O.rest, lambda i: [lambda a, c: COM(i, a, c)], cr)
        ex.contracts.update({
            'initialize_csprng': K.c_init(lambda k: sksd.read(V.ctx, [k])), shake(cfg): c_squeeze, 'generate_seed_tree_from_root': tree,
            'generator_SF_seed_expand': K.c_code(lambda k: g0.read(V.ctx, [k])), 'generator_rref_expand': K.c_full,
            'monomial_mat_seed_expand_salt_rnd': eph, 'prepare_digest_input': prep, 'seed_tree_path': path,
            'expand_digest_to_fixed_weight': Rk.contract(lambda k: Ch.DG(Ch.final, k)),
            'monomial_mat_seed_expand_prikey': K.c_prikey(lambda st: chal(st) - 1), 'monomial_compose_action': compose, 'compress_monom_action': pack})

        def actions(L):
            """the local array of round actions"""
            ks = [k for k in L.st.mem if L.local(k) and k[1] == ('coefficients',) and isinstance(L.st.mem[k], Arr) and L.st.mem[k].nd == 2]
            if len(ks) != 1:
                raise ShapeMismatch('array of round actions not found')
            return ks[0], (ks[0][0], ('permutation',))

        def inv_rounds(L):
            i = z64(L.i)
            rounds['i'] = L.ref_i
            Ch.step(i)
            kc, kp = actions(L)

            def b(L, t, k):
                return Implies(And(lt(t, L.i), lt(t, p.T), lt(k, p.K)), And(L.rd(kc, t, k) == AC(t, k), L.rd(kp, t, k) == AP(t, k)))
            return [('rounds hashed in order', Ch.value(L.st) == Ch.HCH(i)), ('actions kept', Forall(2, b, [(kc, None), (kp, None)]))]

        def inv_idx(L):
            o = []
            for k in local_bytes(V, L, p.T):
                if k == Rk.key:
                    continue
                o.append((f'{k[0][-1].split("::")[-1]}: hidden rounds', Forall(1, lambda L, j, k=k: Implies(
                    And(lt(j, L.i), lt(j, p.T)), L.rd(k, j) == Ite(Rk.ch(j) != 0, bv(1, 8), bv(0, 8))), [(k, None)])))
                o.append((f'{k[0][-1].split("::")[-1]}: not reached yet', Forall(1, lambda L, j, k=k: Implies(
                    And(Not(lt(j, L.i)), lt(j, p.T)), L.rd(k, j) == L.entryv.mem[k].read(V.ctx, [j])), [(k, None)])))
            return o

        def inv_resp(L):
            i = z64(L.i)
            resp['i'] = L.ref_i
            Rk.ch(i)
            km = asig('monom_actions')

            def b(L, q, k):
                s = Rk.kth(q)
                return Implies(And(z3.ULT(q, Rk.RK(z64(L.i))), lt(q, p.W), lt(k, p.AB)), L.rd(km, q, k) == PKD(s, k))
            e = L.counter('emitted_monoms')
            return [('responses written', sext(e, 64) == Rk.RK(i)), ('response bytes', Forall(2, b, [(km, None)]))]
        ex.loops = {(1,): LoopSpec(inv_rounds), (2,): LoopSpec(inv_idx), (3,): LoopSpec(inv_resp)}
        ret, st = V.call([sk, m, mlen, sig])
        V.prove(st, 'randomness consumed: root seed and salt', st.mem[ppos] == p.S + p.H)
        n64 = zext(NPUB, 64)
        V.prove(st, 'returns the number of published seeds', z64(ret) == n64)
        V.forall(st, 'salt in the signature', lambda k: lt(k, p.H), lambda k: V.rd(asig('tree_salt'), k, st=st) == salt(k))
        V.forall(st, 'digest over all rounds in order, the message and the salt', lambda k: lt(k, p.H), lambda k: V.rd(asig('digest'), k, st=st) == Ch.DG(Ch.final, k))
        V.forall(st, 'responses: one per hidden round, in increasing order', lambda q, k: And(lt(q, p.W), lt(k, p.AB)),
                 lambda q, k: V.rd(asig('monom_actions'), q, k, st=st) == PKD(Rk.kth(q), k), 2)
        ks = asig('seed_storage')
        V.forall(st, 'published path', lambda k: z3.ULT(k, n64 * p.S), lambda k: V.rd(ks, k, st=st) == PATH(k))
        V.prove(st, 'count of published seeds follows the path', V.rd(ks, n64 * p.S, st=st) == trunc(NPUB, 8))
        V.forall(st, 'rest of the reserved space is zero', lambda k: And(z3.UGT(k, n64 * p.S), lt(k, p.MAXB)), lambda k: V.rd(ks, k, st=st) == 0)
        V.discharge(r)
    return u


# ------------------------------------------------------------------ C20
class RoundPivots(PivotSet):
    """the pivot set of one round"""

    def __init__(self, ctx, p, flag, nr, nc, pc):
        super().__init__(ctx, p, flag)
        self.NR, self.NC, self.PC = nr, nc, pc


class Hidden:
    """verifier's side of a hidden round q: objects named by (the key selected and) the index of the response"""

    def __init__(self, V, Rk, cur):
        p = V.p
        self.V, self.p, self.ctx, self.Rk, self.cur = V, p, V.ctx, Rk, cur
        self.O = Objects(p)
        self.PKV, self.PKOK = fn('PUBKEYMATRIX', 3, 8), fn('PUBKEYOK', 1, 'bool')
        self.RAC, self.RAP, self.VOK = fn('RECVCOEF', 2, 8), fn('RECVPERM', 2, p.PW), fn('RECVVALID', 1, 'bool')
        self.AG, self.RD, self.PV = fn('APPLIED', 3, 8), fn('REDUCED', 3, 8), fn('PIVOT', 2, 'bool')
        self.LM, self.ST = fn('NORMALISED', 3, 8), fn('SORTED', 3, 8)
        self.NR, self.NC, self.PC = fn('NR', 2, 64), fn('NC', 2, 64), fn('PC', 2, 64)
        self.sets = {}

    def ok(self, i):
        """the key and the response used in round i are well formed"""
        return Implies(self.Rk.ch(i) != 0, And(self.PKOK(z64(self.Rk.ch(i)) - 1), self.VOK(self.Rk.RK(i))))

    def pivots(self, i):
        k = i.get_id()
        if k not in self.sets:
            self.ctx.keep.append((i,))
            self.sets[k] = RoundPivots(self.ctx, self.p, lambda c: self.PV(i, c), lambda c: self.NR(i, c), lambda n: self.NC(i, n), lambda n: self.PC(i, n))
            self.sets[k].start()
        return self.sets[k]

    def key(self, st):
        return z64(self.Rk.ch(self.cur(st))) - 1

    def number(self, st):
        return self.Rk.RK(self.cur(st))

    def contracts(self, pkb, sigb):
        """pkb(v, k): byte k of packed key v; sigb(q, k): byte k of response q"""
        p, O, cur = self.p, self.O, self.cur

        def expand(ex, st, av, fr):
            f, b = av
            v = self.key(st)
            same_bytes(ex, st, 'expands the public key the challenge selects', b, p.RB, lambda k: pkb(v, k))
            put(ex, st, O.full(st, f), [lambda r, c: self.PKV(v, r, c)])
            return Ite(self.PKOK(v), bv(1, 32), bv(0, 32))

        def unpack(ex, st, av, fr):
            a, b = av
            q = self.number(st)
            same_bytes(ex, st, 'decodes the next response', b, p.AB, lambda k: sigb(q, k))
            put(ex, st, O.action(st, a), [lambda k: self.RAC(q, k), lambda k: self.RAP(q, k)])

        def is_action(ex, st, a, label):
            q = self.number(st)
            same(ex, st, label, O.action(st, a), [lambda k: self.RAC(q, k), lambda k: self.RAP(q, k)])
            return q

        def valid(ex, st, av, fr):
            q = is_action(ex, st, av[0], 'validity of the decoded response')
            return Ite(self.VOK(q), bv(1, 32), bv(0, 32))

        def apply(ex, st, av, fr):
            res, g, a = av
            i, v = cur(st), self.key(st)
            q = is_action(ex, st, a, 'applies the decoded response')
            ex.oblige(st, f'only a well-formed response is applied {ex.site}', self.VOK(q), 'pre')
            ex.oblige(st, f'only a well-formed key is used {ex.site}', self.PKOK(v), 'pre')
            same(ex, st, 'to the public key the challenge selects', O.full(st, g), [lambda r, c: self.PKV(v, r, c)])
            put(ex, st, O.full(st, res), [lambda r, c: self.AG(i, r, c)])

        def rref(ex, st, av, fr):
            g, fl = av
            i = cur(st)
            ps = self.pivots(i)
            same(ex, st, 'reduces the transformed key', O.full(st, g), [lambda r, c: self.AG(i, r, c)])
            k = (fl.obj, fl.path)
            f = st.mem[k]
            skolem(ex, st, f'flags clear {ex.site}', lambda c: lt(c, p.N), lambda c: f.read(ex.ctx, [c]) == 0, 1)
            put(ex, st, O.full(st, g), [lambda r, c: self.RD(i, r, c)])

            def rf(c, ix):
                ps.use(ix[0])
                return Ite(lt(ix[0], p.N), Ite(self.PV(i, ix[0]), bv(1, 8), bv(0, 8)), f.read(c, ix))
            st.mem[k] = Lam(rf, 1, 8)
            ex.log(k)
            return bv(1, 32)

        def lexmin(ex, st, av, fr):
            v, dst, g, col = av
            i, d, c = cur(st), z64(dst), z64(col)
            part, src = O.rest(st, v)[0], O.full(st, g)[0]
            ex.oblige(st, f'column indices in range {ex.site}', And(lt(d, p.N - p.K), lt(c, p.N)), 'pre')
            skolem(ex, st, f'a column of the reduced matrix {ex.site}', lambda r: lt(r, p.K), lambda r: src.read(ex.ctx, st, [r, c]) == self.RD(i, r, c), 1)
            old = st.mem[part.key]
            st.mem[part.key] = Lam(lambda x, ix: Ite(And(ix[1] == d, lt(ix[0], p.K)), self.LM(i, ix[0], c), old.read(x, ix)), 2, 8)
            ex.log(part.key)

        def sort(ex, st, av, fr):
            i = cur(st)
            parts = O.rest(st, av[0])
            same(ex, st, 'sorts the normalised non-pivot columns', parts, [lambda r, n: self.LM(i, r, self.pivots(i).kth(n))])
            put(ex, st, parts, [lambda r, n: self.ST(i, r, n)])
        return {'expand_to_rref': expand, 'expand_to_monom_action': unpack, 'is_monom_action_valid': valid, 'apply_action_to_G': apply,
                'generator_RREF': rref, 'lex_minimize': lexmin, 'lex_sort_cols': sort}


def u_verify(cfg):
    @unit(cfg, 'LESS_verify')
    def u(cfg, p, r):
        V = Verif(cfg, 'LESS', 'LESS_verify')
        ex, O, K = V.ex, Objects(p), Keys(V)
        pk = V.obj('PK', 'pubkey_t', readonly=True)
        sig = V.obj('sig', 'sign_t', readonly=True)
        mlen = fresh(64, 'mlen')
        V.assume(z3.ULT(mlen, I(1 << 62)))
        m = V.array('m', 8, mlen, readonly=True)
        ex.objty[m.obj].to.signed = True
        at = lambda o, f: V.st.mem[(o.obj, (f,))]
        salt = lambda k: at(sig, 'tree_salt').read(V.ctx, [k])
        dig = lambda k: at(sig, 'digest').read(V.ctx, [k])
        pkb = lambda v, k: at(pk, 'SF_G').read(V.ctx, [v, k])
        sgb = lambda q, k: at(sig, 'monom_actions').read(V.ctx, [q, k])
        g0 = at(pk, 'G_0_seed')
        rounds = {}
        cr = cur_of(rounds)
        TREE = fn('RECOVERED', 1, 8)
        EC, EP, COM = fn('EPHCOEF', 2, 8), fn('EPHPERM', 2, p.PW), fn('COMMIT', 3, 8)
        DC, DP = fn('DISCARDCOEF', 2, 8), fn('DISCARDPERM', 2, p.PW)
        Ch, Rk = Chain(V), Ranks(V)
        Ch.start()
        Rk.start()
        Hd = Hidden(V, Rk, cr)
        SEEDS = (p.MAXB // p.S) * p.S

        def rebuild(ex, st, av, fr):
            t, x, stor, s = av
            same_bytes(ex, st, 'recovers exactly the rounds with zero challenge', x, p.T, lambda k: Ite(Rk.ch(k) != 0, bv(1, 8), bv(0, 8)))
            same_bytes(ex, st, 'from the published seeds', stor, SEEDS, lambda k: at(sig, 'seed_storage').read(V.ctx, [k]))
            same_bytes(ex, st, 'with the salt of the signature', s, p.H, salt)
            fill_bytes(ex, st, t, I(p.NODES * p.S), lambda c, k: TREE(k))
            return fresh(32, 'used')

        def eph(ex, st, av, fr):
            q, seed, s, i = av
            n = cr(st)
            same_bytes(ex, st, 'recovered seed of the round', seed, p.S, lambda k: TREE((n + (p.LEAVES - 1)) * p.S + k))
            ex.oblige(st, f'only disclosed rounds are recomputed from a seed {ex.site}', Rk.ch(n) == 0, 'pre')
            same_bytes(ex, st, 'ephemeral monomial from the salt', s, p.H, salt)
            ex.oblige(st, f'ephemeral monomial from the round index {ex.site}', i == trunc(n, 16), 'pre')
            put(ex, st, O.monomial(st, q), [lambda j: EC(n, j), lambda j: EP(n, j)])

        def prep(ex, st, av, fr):
            v, a, g, q = av
            n = cr(st)
            same(ex, st, 'recomputes from the public code', O.full(st, g), [K.FULL])
            same(ex, st, 'under the ephemeral monomial of the round', O.monomial(st, q), [lambda j: EC(n, j), lambda j: EP(n, j)])
            put(ex, st, O.rest(st, v), [lambda i, c: COM(n, i, c)])
            put(ex, st, O.action(st, a), [lambda k: DC(n, k), lambda k: DP(n, k)])
        Ch.contracts(V, m, mlen, salt, O.rest, lambda i: [lambda a, c: Ite(Rk.ch(i) == 0, COM(i, a, c), Hd.ST(i, a, c))], cr)
        ex.contracts.update({
            'generator_SF_seed_expand': K.c_code(lambda k: g0.read(V.ctx, [k])), 'generator_rref_expand': K.c_full,
            'expand_digest_to_fixed_weight': Rk.contract(dig), 'rebuild_seed_tree_leaves': rebuild,
            'monomial_mat_seed_expand_salt_rnd': eph, 'prepare_digest_input': prep})
        ex.contracts.update(Hd.contracts(pkb, sgb))
        # WELL(i): keys and responses of the hidden rounds before i are well formed; ALLEQ: the digests agree in every byte (used through its instances)
        WELL, ALLEQ = fn('WELLFORMEDBEFORE', 1, 'bool'), z3.Bool('ALLEQ')
        ALLOK = WELL(p.T)
        V.assume(WELL(0))
        redo = lambda k: Ch.DG(Ch.final, k)
        for k in range(p.H):
            V.assume(Implies(ALLEQ, redo(I(k)) == dig(I(k))))

        def inv_idx(L):
            o = []
            for k in local_bytes(V, L, p.T):
                if k == Rk.key:
                    continue
                o.append((f'{k[0][-1].split("::")[-1]}: hidden rounds', Forall(1, lambda L, j, k=k: Implies(
                    And(lt(j, L.i), lt(j, p.T)), L.rd(k, j) == Ite(Rk.ch(j) != 0, bv(1, 8), bv(0, 8))), [(k, None)])))
                o.append((f'{k[0][-1].split("::")[-1]}: not reached yet', Forall(1, lambda L, j, k=k: Implies(
                    And(Not(lt(j, L.i)), lt(j, p.T)), L.rd(k, j) == L.entryv.mem[k].read(V.ctx, [j])), [(k, None)])))
            return o

        def inv_rounds(L):
            i = z64(L.i)
            rounds['i'] = L.ref_i
            Ch.step(i)
            Rk.ch(i)
            V.assume(Implies(lt(i, p.T), And(WELL(i + 1) == And(WELL(i), Hd.ok(i)), Implies(ALLOK, WELL(i + 1)))))
            e = L.counter('employed_monoms')
            return [('responses used', sext(e, 64) == Rk.RK(i)), ('rounds hashed in order', Ch.value(L.st) == Ch.HCH(i)),
                    ('rounds so far well formed', WELL(i))]

        def inv_cols(L):
            c = z64(L.i)
            i = cr(L.st)
            ps = Hd.pivots(i)
            ps.use(c)
            ks = [k for k in L.st.mem if L.local(k) and k[1] == ('values',) and isinstance(L.st.mem[k], Arr)
                  and ex.leafinfo(*k).dims == [p.K, p.N - p.K] and (k[0], ('column_pos',)) not in L.st.mem]

            def b(k):
                def f(L, row, n):
                    s = Hd.pivots(cr(L.st)).kth(n)
                    return Implies(And(lt(row, p.K), lt(n, p.N - p.K), lt(s, L.i)), L.rd(k, row, n) == Hd.LM(cr(L.st), row, s))
                return f
            return [('columns placed', z64(L.counter('placed_non_pivots')) == ps.NR(c))] + \
                [('normalised columns stored', Forall(2, b(k), [(k, None)])) for k in ks]
        ex.loops = {(0,): LoopSpec(inv_idx), (1,): LoopSpec(inv_rounds), (1, 0): LoopSpec(inv_cols)}
        ret, st = V.call([pk, m, mlen, sig])
        V.prove(st, 'the verdict is 0 or 1', Or(ret == 0, ret == 1))
        ok = st.copy()
        ok.path = And(st.path, ret == 1)
        V.forall(ok, 'accepted: the recomputed digest is the digest of the signature', lambda k: lt(k, p.H), lambda k: redo(k) == dig(k))
        V.prove(ok, 'accepted: keys and responses of all hidden rounds are well formed', ALLOK)
        V.prove(st, 'accepted whenever all hidden rounds are well formed and the digests agree', Implies(And(ALLOK, ALLEQ), ret == 1))
        V.discharge(r)
    return u


# ------------------------------------------------------------------ C23
def u_keygen(cfg):
    @unit(cfg, 'LESS_keygen')
    def u(cfg, p, r):
        V = Verif(cfg, 'LESS', 'LESS_keygen')
        ex, O, K = V.ex, Objects(p), Keys(V)
        sk, pk = V.obj('SK', 'prikey_t'), V.obj('PK', 'pubkey_t')
        pid, ppos = stream_at(V)
        secret = lambda k: OUT(pid, k)
        code = lambda k: OUT(pid, arith('+', k, I(K.SKL)))
        QC, QP = fn('INVCOEF', 2, 8), fn('INVPERM', 2, p.PW)
        PROD, RD, PV, PACK = fn('PRODUCT', 3, 8), fn('REDUCED', 3, 8), fn('PIVOT', 2, 'bool'), fn('PACKED', 2, 8)
        keys = {}
        cur = cur_of(keys)

        def inverse(ex, st, av, fr):
            o, q = av
            v = cur(st)
            same(ex, st, 'inverts the private monomial of the key', O.monomial(st, q), [lambda j: K.PRC(v, j), lambda j: K.PRP(v, j)])
            put(ex, st, O.monomial(st, o), [lambda j: QC(v, j), lambda j: QP(v, j)])

        def gmm(ex, st, av, fr):
            res, g, q = av
            v = cur(st)
            same(ex, st, 'transforms the public code', O.full(st, g), [K.FULL])
            same(ex, st, 'by the inverse of the private monomial', O.monomial(st, q), [lambda j: QC(v, j), lambda j: QP(v, j)])
            put(ex, st, O.full(st, res), [lambda r, c: PROD(v, r, c)])

        def rref(ex, st, av, fr):
            g, fl = av
            v = cur(st)
            k = (fl.obj, fl.path)
            f = st.mem[k]
            same(ex, st, 'reduces the product', O.full(st, g), [lambda r, c: PROD(v, r, c)])
            skolem(ex, st, f'flags clear {ex.site}', lambda c: lt(c, p.N), lambda c: f.read(ex.ctx, [c]) == 0, 1)
            put(ex, st, O.full(st, g), [lambda r, c: RD(v, r, c)])
            st.mem[k] = Lam(lambda c, ix: Ite(lt(ix[0], p.N), Ite(PV(v, ix[0]), bv(1, 8), bv(0, 8)), f.read(c, ix)), 1, 8)
            ex.log(k)
            return bv(1, 32)

        def pack(ex, st, av, fr):
            b, g, fl = av
            v = cur(st)
            f = st.mem[(fl.obj, fl.path)]
            same(ex, st, 'packs the reduced matrix', O.full(st, g), [lambda r, c: RD(v, r, c)])
            skolem(ex, st, f'with its pivots {ex.site}', lambda c: lt(c, p.N), lambda c: f.read(ex.ctx, [c]) == Ite(PV(v, c), bv(1, 8), bv(0, 8)), 1)
            fill_bytes(ex, st, b, I(p.RB), lambda c, k: PACK(v, k))
        ex.contracts.update({
            'initialize_csprng': K.c_init(secret), shake(cfg): c_squeeze, 'generator_SF_seed_expand': K.c_code(code), 'generator_rref_expand': K.c_full,
            'monomial_mat_seed_expand_prikey': K.c_prikey(cur), 'monomial_mat_inv': inverse, 'generator_monomial_mul': gmm,
            'generator_RREF': rref, 'compress_rref': pack})
        kg = (pk.obj, ('SF_G',))

        def inv(L):
            keys['i'] = L.ref_i
            return [('keys so far', Forall(2, lambda L, v, k: Implies(And(lt(v, L.i), lt(v, p.NK - 1), lt(k, p.RB)), L.rd(kg, v, k) == PACK(v, k)), [(kg, None)]))]
        ex.loops = {(1,): LoopSpec(inv)}
        ret, st = V.call([sk, pk])
        V.prove(st, 'randomness consumed: secret seed and code seed', st.mem[ppos] == K.SKL + p.S)
        V.forall(st, 'secret seed', lambda k: lt(k, K.SKL), lambda k: V.rd((sk.obj, ('compressed_sk',)), k, st=st) == secret(k))
        V.forall(st, 'code seed in the secret key', lambda k: lt(k, p.S), lambda k: V.rd((sk.obj, ('G_0_seed',)), k, st=st) == code(k))
        V.forall(st, 'code seed in the public key', lambda k: lt(k, p.S), lambda k: V.rd((pk.obj, ('G_0_seed',)), k, st=st) == code(k))
        V.forall(st, 'packed reduced images for every key index', lambda v, k: And(lt(v, p.NK - 1), lt(k, p.RB)), lambda v, k: V.rd(kg, v, k, st=st) == PACK(v, k), 2)
        V.discharge(r)
    return u
