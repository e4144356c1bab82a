"""Contracts of the known-answer generator (KAT_NIST_rng.c): AES-256 CTR DRBG without derivation
   function, SP 800-90A 10.2.1, with the block cipher uninterpreted."""
import z3
from vcg import *
from harness import *
from common import *
from spec_monomial import H, lt, unit

B128, B256 = z3.BitVecSort(128), z3.BitVecSort(256)
AES = z3.Function('AES256', B256, B128, B128)      # key, block (most significant byte first)


def be(bs):
    return z3.Concat(*bs)


def byte_of(x, k):
    """byte k of a big-endian string"""
    n = x.size() // 8
    return z3.Extract(8 * (n - k) - 1, 8 * (n - k) - 8, x)


def sel(x, k):
    """byte at symbolic position k of a 16 byte big-endian string"""
    r = byte_of(x, 15)
    for j in range(15):
        r = Ite(Eq(k, I(j)), byte_of(x, j), r)
    return r


def rdn(ctx, a, n, off=0):
    return be([a.read(ctx, [I(off + k)]) for k in range(n)])


def table_of(x):
    """the bytes of a bit-vector as an array (positions are always constants)"""
    n = x.size() // 8

    def rd(c, ix):
        i = ix[0]
        if is_num(i):
            return byte_of(x, num(i)) if num(i) < n else bv(0, 8)
        r = byte_of(x, n - 1)
        for j in range(n - 1):
            r = Ite(Eq(i, I(j)), byte_of(x, j), r)
        return r
    return Lam(rd, 1, 8)


class Drbg:
    """names for the key and counter at the points the specification speaks about"""

    def __init__(self, V):
        self.V, self.points = V, []

    def aes(self, ex, st, av, fr):
        """KAT_NIST_AES256_ECB(key, ctr, buffer)"""
        key, ctr, out = av
        from cbuiltins import bytes_reader, fill_bytes
        kf, cf = bytes_reader(ex, st, key, I(32)), bytes_reader(ex, st, ctr, I(16))
        k = be([kf(ex.ctx, I(i)) for i in range(32)])
        c = be([cf(ex.ctx, I(i)) for i in range(16)])
        for label, pt in self.points:
            g = pt(st)
            if g is not None:
                ex.oblige(st, f'{label} {ex.site}', And(k == g[0], c == g[1]), 'pre')
                self.V.ctx.fact(Implies(st.path, And(k == g[0], c == g[1])))
                k, c = g
                break
        t = AES(k, c)
        fill_bytes(ex, st, out, I(16), lambda cx, i: sel(t, i) if not is_num(i) else byte_of(t, num(i)))


def update_spec(key, v, data=None):
    """(key, v) after CTR_DRBG_Update(data)"""
    t = be([AES(key, v + i) for i in (1, 2, 3)])
    if data is not None:
        t = t ^ data
    return z3.Extract(383, 128, t), z3.Extract(127, 0, t)


def u_update(cfg, base='kat_util', null=False):
    @unit(cfg, f'{base} CTR_DRBG_Update{"(NULL)" if null else ""}')
    def u(cfg, p, r):
        V = Verif(cfg, base, 'KAT_NIST_AES256_CTR_DRBG_Update')
        D = Drbg(V)
        V.ex.contracts['KAT_NIST_AES256_ECB'] = D.aes
        data = NULL if null else V.array('provided', 8, 48, readonly=True)
        key, v = V.array('Key', 8, 32), V.array('V', 8, 16)
        kk, kv = (key.obj, key.path), (v.obj, v.path)
        k0, v0 = rdn(V.ctx, V.st.mem[kk], 32), rdn(V.ctx, V.st.mem[kv], 16)
        d0 = None if null else rdn(V.ctx, V.st.mem[(data.obj, data.path)], 48)
        n = [0]

        def point(st):
            n[0] += 1
            return (k0, v0 + n[0])
        D.points.append(('block number', point))
        ret, st = V.call([data, key, v])
        ek, ev = update_spec(k0, v0, d0)
        for i in range(32):
            V.prove(st, f'Key[{i}]', st.mem[kk].read(V.ctx, [I(i)]) == byte_of(ek, i))
        for i in range(16):
            V.prove(st, f'V[{i}]', st.mem[kv].read(V.ctx, [I(i)]) == byte_of(ev, i))
        V.prove(st, 'three blocks', z3.BoolVal(n[0] == 3))
        V.discharge(r)
    return u


def c_update(V, log):
    def c(ex, st, av, fr):
        from cbuiltins import bytes_reader, fill_bytes
        data, key, v = av
        kf, vf = bytes_reader(ex, st, key, I(32)), bytes_reader(ex, st, v, I(16))
        k = be([kf(ex.ctx, I(i)) for i in range(32)])
        c = be([vf(ex.ctx, I(i)) for i in range(16)])
        d = None
        if data.obj != 'NULL':
            df = bytes_reader(ex, st, data, I(48))
            d = be([df(ex.ctx, I(i)) for i in range(48)])
        log.append((k, c, d))
        g = V.named(st) if hasattr(V, 'named') else None
        if g is not None:
            ex.oblige(st, f'state at the update {ex.site}', And(k == g[0], c == g[1]), 'pre')
            V.ctx.fact(Implies(st.path, And(k == g[0], c == g[1])))
            k, c = g
        ek, ev = update_spec(k, c, d)
        tk, tv = table_of(ek), table_of(ev)
        fill_bytes(ex, st, key, I(32), lambda cx, i: tk.read(cx, [i]))
        fill_bytes(ex, st, v, I(16), lambda cx, i: tv.read(cx, [i]))
    return c


def ctx_leaves():
    o = ('G', 'DRBG_ctx')
    return (o, ('Key',)), (o, ('V',)), (o, ('reseed_counter',))


def u_drbg_init(cfg, base='kat_util', null=True):
    @unit(cfg, f'{base} randombytes_init{"" if null else "(personalisation)"}')
    def u(cfg, p, r):
        V = Verif(cfg, base, 'KAT_NIST_randombytes_init')
        V.ex.init_global(('G', 'DRBG_ctx'), 'DRBG_ctx', V.st)
        log = []
        V.ex.contracts['KAT_NIST_AES256_CTR_DRBG_Update'] = c_update(V, log)
        ent = V.array('entropy', 8, 48, readonly=True)
        pers = NULL if null else V.array('personalisation', 8, 48, readonly=True)
        sm = rdn(V.ctx, V.st.mem[(ent.obj, ent.path)], 48)
        if not null:
            sm = sm ^ rdn(V.ctx, V.st.mem[(pers.obj, pers.path)], 48)
        ret, st = V.call([ent, pers, V.ex.fresh32() if hasattr(V.ex, 'fresh32') else fresh(32, 'strength')])
        ek, ev = update_spec(bv(0, 256), bv(0, 128), sm)
        kk, kv, kc = ctx_leaves()
        for i in range(32):
            V.prove(st, f'Key[{i}]', st.mem[kk].read(V.ctx, [I(i)]) == byte_of(ek, i))
        for i in range(16):
            V.prove(st, f'V[{i}]', st.mem[kv].read(V.ctx, [I(i)]) == byte_of(ev, i))
        V.prove(st, 'reseed counter', st.mem[kc] == 1)
        V.discharge(r)
    return u


GN = (('ghost', 'blocks'), ())


def u_randombytes(cfg, base='kat_util'):
    @unit(cfg, f'{base} randombytes')
    def u(cfg, p, r):
        V = Verif(cfg, base, 'KAT_NIST_randombytes')
        V.ex.init_global(('G', 'DRBG_ctx'), 'DRBG_ctx', V.st)
        kk, kv, kc = ctx_leaves()
        n = fresh(64, 'xlen')
        V.assume(z3.ULT(n, I(1 << 31)))
        x = V.array('x', 8, n)
        kx = (x.obj, x.path)
        key0 = z3.BitVec('K0', 256)
        v0 = z3.BitVec('V0', 128)
        V.st.mem[kk], V.st.mem[kv] = table_of(key0), table_of(v0)
        D = Drbg(V)
        log = []
        V.ex.contracts['KAT_NIST_AES256_ECB'] = D.aes
        V.ex.contracts['KAT_NIST_AES256_CTR_DRBG_Update'] = c_update(V, log)
        V.st.mem[GN] = I(0)

        def cnt(g):
            return v0 + zext(g, 128)
        D.points.append(('next block', lambda st: (key0, cnt(st.mem[GN] + 1))))
        V.named = lambda st: (key0, cnt(st.mem[GN]))

        def inv(L):
            g = L.st.mem[GN]
            left = L.var('xlen')
            done = n - left
            o = [('counter', rdn(V.ctx, L.st.mem[kv], 16) == cnt(g)),
                 ('blocks produced', And(z3.ULE(left, n), z3.UGE(g << 4, done), Implies(left != 0, And(done == g << 4, z64(L.var('i')) == done)),
                                         Implies(left == 0, z3.ULT((g << 4) - n, I(16))), z3.ULT(g, I(1 << 28))))]
            return o + [('bytes so far', Forall(1, lambda L, k: Implies(z3.ULT(k, n - L.var('xlen')),
                                                                       L.rd(kx, k) == sel(AES(key0, cnt(z3.LShR(k, 4) + 1)), k & 15)), [(kx, None)]))]
        V.ex.loops = {(0,): LoopSpec(inv, ghost=([GN], lambda Lh, Lb: Lb.st.mem.__setitem__(GN, Lh.st.mem[GN] + 1)),
                                     decreases=lambda L: L.var('xlen'))}
        ret, st = V.call([x, n])
        V.forall(st, 'output byte k is byte k mod 16 of the cipher of V + 1 + k/16', lambda k: z3.ULT(k, n),
                 lambda k: V.rd(kx, k, st=st) == sel(AES(key0, cnt(z3.LShR(k, 4) + 1)), k & 15))
        blocks = z3.LShR(n + 15, 4)
        g = st.mem[GN]
        V.prove(st, 'one block per started 16 bytes', g == blocks)
        ek, ev = update_spec(key0, cnt(g), None)
        for i in range(32):
            V.prove(st, f'Key[{i}]', st.mem[kk].read(V.ctx, [I(i)]) == byte_of(ek, i))
        for i in range(16):
            V.prove(st, f'V[{i}]', st.mem[kv].read(V.ctx, [I(i)]) == byte_of(ev, i))
        V.prove(st, 'success', ret == 0)
        V.prove(st, 'one update, without data', z3.BoolVal(len(log) == 1 and log[0][2] is None))
        V.discharge(r)
    return u


# ---------------------------------------------------------------- one block through OpenSSL's interface
def u_ecb(cfg, base='kat_util', fails=False):
    """KAT_NIST_AES256_ECB against the documented meaning of EVP_EncryptInit_ex / EVP_EncryptUpdate"""
    @unit(cfg, f'{base} AES256_ECB{"(no context)" if fails else ""}')
    def u(cfg, p, r):
        from cbuiltins import bytes_reader, fill_bytes
        V = Verif(cfg, base, 'KAT_NIST_AES256_ECB')
        key, ctr, buf = V.array('key', 8, 32, readonly=True), V.array('ctr', 8, 16, readonly=True), V.array('buffer', 8, 16)
        kb = (buf.obj, buf.path)
        k0, c0 = rdn(V.ctx, V.st.mem[(key.obj, key.path)], 32), rdn(V.ctx, V.st.mem[(ctr.obj, ctr.path)], 16)
        handle = Ptr(('HEAP', 'evp context'), (), [], None)
        state = {'key': None, 'updates': 0, 'freed': 0, 'aborted': 0}

        def new(ex, st, av, fr):
            return NULL if fails else handle

        def cipher(ex, st, av, fr):
            return Ptr(('HEAP', 'aes-256-ecb'), (), [], None)

        def live(ex, st, p):
            ex.oblige(st, f'a live context is passed {ex.site}', z3.BoolVal(isinstance(p, Ptr) and p.obj == handle.obj and not state['freed']), 'pre')

        def init(ex, st, av, fr):
            live(ex, st, av[0])
            ex.oblige(st, f'the cipher is AES-256 in ECB mode, default engine {ex.site}',
                      z3.BoolVal(av[1].obj == ('HEAP', 'aes-256-ecb') and av[2].obj == 'NULL'), 'pre')
            if av[3].obj != 'NULL':
                kf = bytes_reader(ex, st, av[3], I(32))
                state['key'] = be([kf(ex.ctx, I(i)) for i in range(32)])
            ok = fresh(32, 'init')
            return ok

        def update(ex, st, av, fr):
            live(ex, st, av[0])
            ex.oblige(st, f'the context has a key {ex.site}', z3.BoolVal(state['key'] is not None), 'pre')
            ex.oblige(st, f'exactly one block {ex.site}', z64(av[4]) == 16, 'pre')
            cf = bytes_reader(ex, st, av[3], I(16))
            t = AES(state['key'], be([cf(ex.ctx, I(i)) for i in range(16)]))
            state['updates'] += 1
            ok = fresh(32, 'update')
            old = bytes_reader(ex, st, av[1], I(16))
            was = [old(ex.ctx, I(i)) for i in range(16)]
            junk = z3.BitVec('junk', 128)
            fill_bytes(ex, st, av[1], I(16), lambda cx, i: Ite(ok == 1, sel(t, i) if not is_num(i) else byte_of(t, num(i)), sel(junk, i) if not is_num(i) else byte_of(junk, num(i))))
            if av[2].obj != 'NULL':
                ex.write(av[2], Ite(ok == 1, bv(16, 32), fresh(32, 'outl')), st)
            return ok

        def free(ex, st, av, fr):
            live(ex, st, av[0])
            state['freed'] += 1

        def stop(ex, st, av, fr):
            state['aborted'] += 1
            st.path = FALSE
        for n, f in (('EVP_CIPHER_CTX_new', new), ('EVP_aes_256_ecb', cipher), ('EVP_EncryptInit_ex', init), ('EVP_EncryptUpdate', update),
                     ('EVP_CIPHER_CTX_free', free), ('abort', stop), ('ERR_print_errors_fp', lambda ex, st, av, fr: None)):
            V.ex.contracts[n] = f
        ret, st = V.call([key, ctr, buf])
        if fails:
            V.prove(st or V.st, 'no context: does not return', z3.BoolVal(st is None and state['aborted'] == 1))
        else:
            for i in range(16):
                V.prove(st, f'buffer[{i}] is the cipher of the block', st.mem[kb].read(V.ctx, [I(i)]) == byte_of(AES(k0, c0), i))
        V.discharge(r)
    return u


def _v(f, *a):
    return lambda cfg: f(cfg, *a)


for _b in ('kat_util', 'kat_nist'):
    globals()[f'u_update_{_b}'] = _v(u_update, _b)
    globals()[f'u_update0_{_b}'] = _v(u_update, _b, True)
    globals()[f'u_init_{_b}'] = _v(u_drbg_init, _b)
    globals()[f'u_initp_{_b}'] = _v(u_drbg_init, _b, False)
    globals()[f'u_rand_{_b}'] = _v(u_randombytes, _b)
    globals()[f'u_ecb_{_b}'] = _v(u_ecb, _b)
    globals()[f'u_ecb0_{_b}'] = _v(u_ecb, _b, True)
