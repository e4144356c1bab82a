"""Contracts of keccakf1600.c and fips202.c: the permutation, byte access to the state,
   and the sponge for every length and chunking (FIPS 202)."""
import z3
from vcg import *
import vcg
from harness import *
from common import *
from cbuiltins import bytes_reader, fill_bytes
from spec_monomial import H, lt, unit
from bitcanon import Canon

RATES = (168, 136, 104, 72)


# ------------------------------------------------------------------ FIPS 202, section 3
def keccak_f(lanes):
    """24 rounds on 25 words, lane (x,y) at x+5y; written from the standard"""
    A = list(lanes)

    def rotl(w, n):
        return (w << n) | z3.LShR(w, 64 - n)
    # rho offsets by walking (t+1)(t+2)/2
    rot = [0] * 25
    x, y = 1, 0
    for t in range(24):
        rot[x + 5 * y] = (t + 1) * (t + 2) // 2 % 64
        x, y = y, (2 * x + 3 * y) % 5
    # round constants by the LFSR x^8+x^6+x^5+x^4+1
    R, rc = 1, []
    for _ in range(24 * 7):
        rc.append(R & 1)
        R = (R << 1) ^ (0x171 if R >> 7 else 0)
    for ir in range(24):
        C = [A[i] ^ A[i + 5] ^ A[i + 10] ^ A[i + 15] ^ A[i + 20] for i in range(5)]
        D = [C[(i - 1) % 5] ^ rotl(C[(i + 1) % 5], 1) for i in range(5)]
        A = [A[i] ^ D[i % 5] for i in range(25)]
        A = [rotl(A[i], rot[i]) if rot[i] else A[i] for i in range(25)]
        B = [None] * 25
        for x in range(5):
            for y in range(5):
                B[x + 5 * y] = A[(x + 3 * y) % 5 + 5 * x]
        A = [B[i] ^ (~B[(i + 1) % 5 + 5 * (i // 5)] & B[(i + 2) % 5 + 5 * (i // 5)]) for i in range(25)]
        k = 0
        for j in range(7):
            if rc[7 * ir + j]:
                k |= 1 << ((1 << j) - 1)
        A[0] = A[0] ^ z3.BitVecVal(k, 64)
    return A


def u_permute(cfg):
    @unit(cfg, 'KeccakF1600_StatePermute')
    def u(cfg, p, r):
        V = Verif(cfg, 'keccakf1600', 'KeccakF1600_StatePermute', {}, {})
        V.ex.maxunroll = 40
        s = V.array('state', 64, 25)
        ref = H('state')
        init = [V.rd(ref, i) for i in range(25)]
        ret, st = V.call([s])
        want = keccak_f(init)
        C = Canon()
        for i in range(25):
            ob = V.ex.oblige(st, f'lane {i} equals the FIPS 202 permutation', FALSE, 'post')
            t0 = time.time()
            got = V.rd(ref, i, st=st)
            ok = C.equal(got, want[i])
            ob = V.ctx.obls[-1]
            ob.goal = got == want[i]
            if ok:
                ob.status, ob.time, ob.model = 'proved', time.time() - t0, None
            else:
                ob.status, ob.time, ob.model = concrete_differs(init, got, want[i]), time.time() - t0, None
        r.backend += ' + own canonical form for exclusive-or/product terms'
        V.discharge(r)
    return u


def concrete_differs(vars_, a, b):
    """the two sides differ on a concrete input: refuted; otherwise unknown"""
    import random
    rg = random.Random(7)
    for k in range(4):
        sub = [(v, bv(0 if k == 0 else rg.getrandbits(64), 64)) for v in vars_]
        d = z3.simplify(z3.substitute(a, *sub) ^ z3.substitute(b, *sub))
        if is_num(d) and num(d):
            return 'refuted'
    return 'unknown'


# ------------------------------------------------------------------ byte access
def lane_bytes(f, l):
    """word whose byte k is f(8l+k)"""
    b8 = arith('*', l, I(8))
    return z3.Concat(*[f(arith('+', b8, I(k))) for k in range(7, -1, -1)])


def eqw(a, b):
    """equality of two words, byte by byte"""
    return And(*[z3.simplify(z3.Extract(8 * k + 7, 8 * k, a)) == z3.simplify(z3.Extract(8 * k + 7, 8 * k, b)) for k in range(8)])


def by_bytes(V, st, label, got, want):
    """state words 0..24 equal, one obligation per byte of the word"""
    l = fresh(IDX, 'sk')
    s2 = st.copy()
    s2.path = And(st.path, lt(l, 25))
    a, b = got(l), want(l)
    for k in range(8):
        V.ex.oblige(s2, f'{label} (byte {k})', z3.simplify(z3.Extract(8 * k + 7, 8 * k, a)) == z3.simplify(z3.Extract(8 * k + 7, 8 * k, b)), 'post', info=[l])


def between(lo, x, n):
    """lo <= x < lo+n"""
    return And(z3.ULE(lo, x), z3.ULT(x - lo, n))


def byte_of(word, o):
    """byte o (0..7) of a 64 bit word"""
    return z3.Extract(7, 0, z3.LShR(word, arith('*', o, I(8))))


def u_xor(cfg):
    @unit(cfg, 'KeccakF1600_StateXORBytes')
    def u(cfg, p, r):
        ref, dat = H('state'), H('data')
        off, n = z3.BitVec('off', 32), z3.BitVec('n', 32)
        o, m = z64(off), z64(n)

        def want(V, l, done):
            return a0.read(V.ctx, [l]) ^ lane_bytes(lambda x: Ite(between(o, x, done), d0.read(V.ctx, [x - o]), bv(0, 8)), l)

        def inv(L):
            return [('bytes xored so far', Forall(1, lambda L, l: Implies(lt(l, 25), L.rd(ref, l) == want(V, l, z64(L.i))), [(ref, None)]))]
        V = Verif(cfg, 'keccakf1600', 'KeccakF1600_StateXORBytes', {}, {(0,): LoopSpec(inv)})
        s = V.array('state', 64, 25)
        d = V.array('data', 8, m, readonly=True)
        a0, d0 = V.st.mem[ref], V.st.mem[dat]
        V.assume(And(z3.ULE(o, I(200)), z3.ULE(m, I(200) - o)))
        ret, st = V.call([s, d, off, n])
        V.forall(st, 'exactly the addressed bytes are xored', lambda l: lt(l, 25), lambda l: V.rd(ref, l, st=st) == want(V, l, m))
        V.discharge(r)
    return u


def u_extract(cfg):
    @unit(cfg, 'KeccakF1600_StateExtractBytes')
    def u(cfg, p, r):
        ref, dat = H('state'), H('data')
        off, n = z3.BitVec('off', 32), z3.BitVec('n', 32)
        o, m = z64(off), z64(n)

        def want(V, k):
            x = arith('+', o, k)
            return byte_of(a0.read(V.ctx, [z3.LShR(x, 3)]), x & I(7))

        def inv(L):
            return [('bytes extracted so far', Forall(1, lambda L, k: Implies(lt(k, L.i), L.rd(dat, k) == want(V, k)), [(dat, None)]))]
        V = Verif(cfg, 'keccakf1600', 'KeccakF1600_StateExtractBytes', {}, {(0,): LoopSpec(inv)})
        s = V.array('state', 64, 25, readonly=True)
        d = V.array('data', 8, m)
        a0 = V.st.mem[ref]
        V.assume(And(z3.ULE(o, I(200)), z3.ULE(m, I(200) - o)))
        ret, st = V.call([s, d, off, n])
        V.forall(st, 'byte k of the output is byte offset+k of the state', lambda k: lt(k, m), lambda k: V.rd(dat, k, st=st) == want(V, k))
        V.discharge(r)
    return u


# ------------------------------------------------------------------ contracts of keccakf1600.c
def c_xor(ex, st, av, fr):
    s, d, off, n = av
    o, m = z64(off), z64(n)
    ex.oblige(st, f'state byte range {ex.site}', And(z3.ULE(o, I(200)), z3.ULE(m, I(200) - o)), 'pre')
    if d.obj in ('NULL', 'UNINIT'):
        raise Unsupported('xor from invalid pointer')
    fn = bytes_reader(ex, st, d, m)
    key = (s.obj, s.path)
    cur = st.mem[key]
    if not isinstance(cur, Arr):
        raise Unsupported('state shape')
    st.mem[key] = Lam(lambda c, ix: Ite(z3.ULT(ix[0], I(25)),
                                       cur.read(c, ix) ^ lane_bytes(lambda x: Ite(between(o, x, m), fn(c, x - o), bv(0, 8)), ix[0]),
                                       cur.read(c, ix)), 1, 64)
    ex.log(key)


def c_extract(C, OUTB):
    def c(ex, st, av, fr):
        s, d, off, n = av
        o, m = z64(off), z64(n)
        ex.oblige(st, f'state byte range {ex.site}', And(z3.ULE(o, I(200)), z3.ULE(m, I(200) - o)), 'pre')
        cur = st.mem[(s.obj, s.path)]

        def fn(c_, k):
            x = arith('+', o, k)
            if C is not None:
                C(ex, st, x)
            return byte_of(cur.read(c_, [z3.LShR(x, 3)]), x & I(7))
        st0 = st.copy()
        if C is not None:
            C0 = C

            def fn(c_, k, st0=st0):
                x = arith('+', o, k)
                C0(ex, st0, x)
                return byte_of(cur.read(c_, [z3.LShR(x, 3)]), x & I(7))
        fill_bytes(ex, st, d, m, fn)
    return c


def c_permute(F, gk, step, want):
    """ghost block counter at leaf gk: input lanes must be want(B,l); output lanes are
       F(B+step,l), which is how F is defined"""
    def c(ex, st, av, fr):
        s = av[0]
        key = (s.obj, s.path)
        cur = st.mem[key]
        B = st.mem[gk]
        sk = fresh(64, 'lane')
        s2 = st.copy()
        s2.path = And(st.path, z3.ULT(sk, I(25)))
        ex.oblige(s2, f'permutation input is the specified state {ex.site}', cur.read(ex.ctx, [sk]) == want(ex, st, B, sk), 'post')
        B1 = B + step
        st.mem[gk] = B1
        st.mem[key] = Lam(lambda c_, ix: Ite(z3.ULT(ix[0], I(25)), F(B1, ix[0]), cur.read(c_, ix)), 1, 64)
        ex.log(key)
        ex.log(gk)
    return c


BL = z3.Function('BL', B64, B64, B64)        # absorbing: lane of the state before the block at offset B
SL = z3.Function('SL', B64, B64, B64)        # squeezing: lane of the state C bytes after finalising
MSG = z3.Function('MSG', B64, B8)            # all message bytes absorbed, in order
SQZ = z3.Function('SQZ', B64, B8)            # output bytes, in order
GB = (('ghost', 'B'), ())
GC = (('ghost', 'C'), ())


def norm(t):
    return z3.simplify(t, som=True)


def msg_block(B, o, l):
    return lane_bytes(lambda x: Ite(z3.ULT(x, o), MSG(norm(B + x)), bv(0, 8)), l)


def pad(o, rr, pb, l):
    return lane_bytes(lambda x: Ite(x == o, pb, bv(0, 8)) ^ Ite(x == rr - 1, bv(0x80, 8), bv(0, 8)), l)


def rate(V):
    r32 = z3.BitVec('r', 32)
    V.assume(Or(*[r32 == x for x in RATES]))
    return r32, z64(r32)


def absorb_unit(fname, inc):
    def mk(cfg):
        @unit(cfg, fname)
        def u(cfg, p, r):
            ref, dat = H('s'), H('m')
            mlen = z3.BitVec('mlen', 64)
            pb = z3.BitVec('p', 8)
            rr = z64(z3.BitVec('r', 32))
            B0, o0 = z3.BitVec('B0', 64), z3.BitVec('o0', 64)
            if not inc:
                B0, o0 = I(0), I(0)
            BIG = I(1 << 60)

            def fill(L):
                return L.rd(ref, I(25)) if inc else I(0)

            def inv(L):
                B = L.st.mem[GB]
                o = fill(L)
                ml = L.var('mlen')
                mp = L.var('m')
                return [('fill below the rate', z3.ULT(o, rr)), ('block count', And(z3.ULE(B0, B), z3.ULT(B, I(1 << 62)))),
                        ('rest of the message', And(ml + mp.idxs[-1] == mlen, z3.ULE(mp.idxs[-1], mlen))),
                        ('state', Forall(1, lambda L, l: Implies(lt(l, 25), eqw(L.rd(ref, l), BL(L.st.mem[GB], l) ^ msg_block(L.st.mem[GB], fill(L), l))), [(ref, None)]))]
            V = Verif(cfg, 'fips202', fname, {
                'KeccakF1600_StateXORBytes': c_xor,
                'KeccakF1600_StatePermute': c_permute(BL, GB, rr, lambda ex, st, B, l: BL(B, l) ^ msg_block(B, rr, l))},
                {(0,): LoopSpec(inv, decreases=lambda L: L.var('mlen'),
                                define=lambda L: {GB: norm(B0 + o0 + L.var('m').idxs[-1] - fill(L))})})
            r32, _ = rate(V)
            s = V.array('s', 64, 26 if inc else 25)
            m = V.array('m', 8, mlen, readonly=True)
            V.assume(z3.ULT(pb, bv(128, 8)))
            V.st.mem[GB] = B0
            V.st.mem[dat] = Lam(lambda c_, ix: MSG(norm(B0 + o0 + ix[0])), 1, 8)
            m0 = V.st.mem[ref]
            V.gen(ref, lambda l: Implies(lt(l, 25), m0.f(l) == BL(B0, l) ^ msg_block(B0, o0, l)))
            V.assume(And(z3.ULT(mlen, BIG), z3.ULT(B0, BIG), z3.ULT(o0, rr)))
            if inc:
                V.assume(V.rd(ref, 25) == o0)
                ret, st = V.call([s, r32, m, mlen])
                B, o = st.mem[GB], V.rd(ref, 25, st=st)
                V.prove(st, 'all of the message absorbed', And(B + o == B0 + o0 + mlen, z3.ULT(o, rr)))
                by_bytes(V, st, 'state after the message', lambda l: V.rd(ref, l, st=st), lambda l: BL(B, l) ^ msg_block(B, o, l))
            else:
                ret, st = V.call([s, r32, m, mlen, pb])
                B = st.mem[GB]
                o = mlen - B
                V.prove(st, 'all of the message absorbed', And(z3.ULE(B, mlen), z3.ULT(o, rr)))
                by_bytes(V, st, 'padded state after the message', lambda l: V.rd(ref, l, st=st),
                         lambda l: BL(B, l) ^ msg_block(B, o, l) ^ pad(o, rr, pb, l))
            V.discharge(r)
        return u
    return mk


u_absorb = absorb_unit('keccak_inc_absorb', True)
u_absorb1 = absorb_unit('keccak_absorb', False)


def u_init(cfg):
    @unit(cfg, 'keccak_inc_init')
    def u(cfg, p, r):
        ref = H('s')
        V = Verif(cfg, 'fips202', 'keccak_inc_init', {}, {})
        V.ex.maxunroll = 40
        s = V.array('s', 64, 26)
        ret, st = V.call([s])
        V.forall(st, 'zero state', lambda l: lt(l, 26), lambda l: V.rd(ref, l, st=st) == 0)
        V.discharge(r)
    return u


def u_finalize(cfg):
    @unit(cfg, 'keccak_inc_finalize')
    def u(cfg, p, r):
        ref = H('s')
        V = Verif(cfg, 'fips202', 'keccak_inc_finalize', {'KeccakF1600_StateXORBytes': c_xor}, {})
        r32, rr = rate(V)
        s = V.array('s', 64, 26)
        pb = z3.BitVec('p', 8)
        a0 = V.st.mem[ref]
        o = V.rd(ref, 25)
        V.assume(z3.ULT(o, rr))
        V.assume(z3.ULT(pb, bv(128, 8)))
        ret, st = V.call([s, r32, pb])
        V.forall(st, 'domain and padding bits at the fill position and the end of the block', lambda l: lt(l, 25),
                 lambda l: V.rd(ref, l, st=st) == a0.read(V.ctx, [l]) ^ pad(o, rr, pb, l))
        V.prove(st, 'nothing left to squeeze', V.rd(ref, 25, st=st) == 0)
        V.discharge(r)
    return u


def outbytes(rr):
    def C(ex, st, x):
        Cc = st.mem[GC]
        ex.ctx.fact(Implies(And(z3.ULT(x, rr), z3.UGE(Cc, rr)), SQZ(norm(Cc - rr + x)) == byte_of(SL(Cc, z3.LShR(x, 3)), x & I(7))))
    return C


def squeeze_unit(fname, blocks):
    def mk(cfg):
        @unit(cfg, fname)
        def u(cfg, p, r):
            ref, hh = H('s'), H('h')
            rr = z64(z3.BitVec('r', 32))
            # REM(n) = n*rate, known only through the two instances below (lemma proved over the integers)
            REM = z3.Function('REM', B64, B64)

            def remfacts(n):
                return And(z3.ULE(REM(n), I(1 << 58)), Implies(n == 0, REM(n) == 0),
                           Implies(Not(n == 0), And(REM(n) == REM(n - 1) + rr, z3.ULE(REM(n - 1), I(1 << 58)))))
            C0 = z3.BitVec('C0', 64)
            nn = z3.BitVec('n', 64)
            BIG = I(1 << 50)
            H0 = C0 if blocks else z3.BitVec('H0', 64)      # output position of h[0]

            def rem(L):
                return L.rd(ref, I(25)) if not blocks else I(0)

            def left(L):
                return REM(L.var('nblocks')) if blocks else L.var('outlen')

            def inv(L):
                Cc, hp = L.st.mem[GC], L.var('h')
                q = Cc - rem(L)
                o = [('block count', And(z3.ULE(C0, Cc), z3.ULT(Cc, I(1 << 62)), Or(Cc == 0, z3.UGE(Cc, rr)))), ('remainder below the rate', z3.ULT(rem(L), rr)),
                     ('remainder inside the block', Implies(Cc == 0, rem(L) == 0)),
                     ('output position', q == H0 + hp.idxs[-1]), ('output pointer', z3.ULE(H0, q)),
                     ('state', Forall(1, lambda L, l: Implies(lt(l, 25), L.rd(ref, l) == SL(L.st.mem[GC], l)), [(ref, None)])),
                     ('output so far', Forall(1, lambda L, k: Implies(lt(k, L.var('h').idxs[-1]), L.rd(hh, k) == SQZ(norm(H0 + k))), [(hh, None)]))]
                if blocks:
                    o.append(('blocks left', L.var('h').idxs[-1] + left(L) == tot))
                    o.append(('blocks bound', And(z3.ULE(L.var('nblocks'), nn), z3.ULE(left(L), tot))))
                else:
                    o.append(('whole blocks', Implies(Not(Eq(left(L), I(0))), rem(L) == 0)))
                    o.append(('left', And(hp.idxs[-1] + left(L) == nn, z3.ULE(left(L), nn))))
                return o
            V = Verif(cfg, 'fips202', fname, {
                'KeccakF1600_StateExtractBytes': c_extract(outbytes(rr), None),
                'KeccakF1600_StatePermute': c_permute(SL, GC, rr, lambda ex, st, Cc, l: SL(Cc, l))},
                {(0,): LoopSpec(inv, decreases=lambda L: L.var('nblocks') if blocks else L.var('outlen'),
                                head=(lambda L: L.ex.ctx.fact(remfacts(L.var('nblocks')))) if blocks else None)})
            r32, _ = rate(V)
            tot = REM(nn) if blocks else nn
            s = V.array('s', 64, 25 if blocks else 26)
            h = V.array('h', 8, tot)
            V.st.mem[GC] = C0
            m0 = V.st.mem[ref]
            V.gen(ref, lambda l: Implies(lt(l, 25), m0.f(l) == SL(C0, l)))
            if blocks:
                V.assume(remfacts(nn))
                n, q = z3.Ints('lem_n lem_q')
                rng = And(n >= 0, n < 2**50, q >= 0, q <= 168)
                V.prove(V.st, 'lemma: multiples of the rate', Implies(rng, And(n * q <= 2**58, Implies(n > 0, n * q == (n - 1) * q + q))), 'lemma')
            V.assume(And(z3.ULT(nn, BIG), z3.ULT(C0, BIG), Or(C0 == 0, z3.UGE(C0, rr))))
            if blocks:
                ret, st = V.call([h, nn, s, r32])
            else:
                e0 = V.rd(ref, 25)
                V.assume(And(z3.ULT(e0, rr), Implies(C0 == 0, e0 == 0), H0 == C0 - e0))
                ret, st = V.call([h, nn, s, r32])
                Cc, e = st.mem[GC], V.rd(ref, 25, st=st)
                V.prove(st, 'position advances by the length', And(Cc - e == H0 + nn, z3.ULT(e, rr), Implies(Cc == 0, e == 0)))
            V.forall(st, 'the next bytes of the output stream', lambda k: lt(k, tot), lambda k: V.rd(hh, k, st=st) == SQZ(norm(H0 + k)))
            V.forall(st, 'state', lambda l: lt(l, 25), lambda l: V.rd(ref, l, st=st) == SL(st.mem[GC], l))
            V.discharge(r)
        return u
    return mk


u_squeeze = squeeze_unit('keccak_inc_squeeze', False)
u_blocks = squeeze_unit('keccak_squeezeblocks', True)


# ------------------------------------------------------------------ wrappers
# ghost value attached to a sponge state: what was absorbed into it so far
W = B64
GINIT = z3.BitVecVal(0x1717, 64)
GABS = z3.Function('GABS', W, W, W, W, W, W)     # state, rate, object, offset, length
GFIN = z3.Function('GFIN', W, W, B8, W)
GOUT = z3.Function('GOUT', W, W, W, B8)          # state, rate, index
GADV = z3.Function('GADV', W, W, W, W)           # state, rate, number of bytes


def gkey(s):
    return (s.obj, s.path + ('$sponge',))


def pin(ex, st, p):
    """identity of the byte region a pointer denotes"""
    if p.obj in ('NULL', 'UNINIT'):
        raise Unsupported('absorbing from an invalid pointer')
    h = sum(ord(c) * 131 ** k for k, c in enumerate(repr((p.obj, p.path)))) % (1 << 63)
    return bv(h, 64), (z64(p.idxs[-1]) if p.idxs else I(0))


def gget(ex, st, s):
    k = gkey(s)
    if k not in st.mem:
        ex.oblige(st, f'sponge state initialised {ex.site}', FALSE, 'pre')
        raise Unsupported('use of an uninitialised sponge state')
    return st.mem[k]


def gset(ex, st, s, v):
    st.mem[gkey(s)] = v
    ex.log(gkey(s))
    for k in list(st.mem):
        if k[0] == s.obj and k[1][:len(s.path)] == s.path and isinstance(st.mem[k], Arr):
            st.mem[k] = Base('sponge', st.mem[k].nd, st.mem[k].w)
            ex.log(k)


def kc_init(ex, st, av, fr):
    gset(ex, st, av[0], GINIT)


def kc_absorb(ex, st, av, fr):
    s, r, m, n = av
    gset(ex, st, s, GABS(gget(ex, st, s), z64(r), *pin(ex, st, m), z64(n)))


def kc_finalize(ex, st, av, fr):
    s, r, p = av
    gset(ex, st, s, GFIN(gget(ex, st, s), z64(r), p))


def kc_absorb1(ex, st, av, fr):
    s, r, m, n, p = av
    sk = fresh(64, 'lane')
    s2 = st.copy()
    s2.path = And(st.path, z3.ULT(sk, I(25)))
    ex.oblige(s2, f'state is zero {ex.site}', st.mem[(s.obj, s.path)].read(ex.ctx, [sk]) == 0, 'pre')
    gset(ex, st, s, GFIN(GABS(GINIT, z64(r), *pin(ex, st, m), z64(n)), z64(r), p))


def kc_squeeze(ex, st, av, fr):
    h, n, s, r = av
    g = gget(ex, st, s)
    n, rr = z64(n), z64(r)
    fill_bytes(ex, st, h, n, lambda c, k: GOUT(g, rr, k))
    gset(ex, st, s, GADV(g, rr, n))


def kc_blocks(ex, st, av, fr):
    h, n, s, r = av
    kc_squeeze(ex, st, [h, arith('*', z64(n), z64(r)), s, r], fr)


KC = {'keccak_inc_init': kc_init, 'keccak_inc_absorb': kc_absorb, 'keccak_inc_finalize': kc_finalize,
      'keccak_inc_squeeze': kc_squeeze, 'keccak_absorb': kc_absorb1, 'keccak_squeezeblocks': kc_blocks}


def wrap_unit(names):
    def mk(cfg):
        @unit(cfg, f'{names[0]} and relatives')
        def u(cfg, p, r):
            for fn in names:
                wrapper(cfg, r, fn)
        return u
    return mk


RATE = {'shake128': 168, 'shake256': 136, 'sha3_256': 136, 'sha3_384': 104, 'sha3_512': 72}


def wrapper(cfg, r, fn):
    alg = next(a for a in RATE if fn.startswith(a))
    rest = fn[len(alg):].lstrip('_')
    rate, pb = I(RATE[alg]), bv(0x1F if alg.startswith('shake') else 0x06, 8)
    dl = 0 if alg.startswith('shake') else int(alg[5:]) // 8
    V = Verif(cfg, 'fips202', fn, KC, {})
    V.ex.maxunroll = 70
    n, m = z3.BitVec('outlen', 64), z3.BitVec('inlen', 64)
    inp = V.array('input', 8, m, readonly=True)
    V.assume(And(z3.ULT(m, I(1 << 60)), z3.ULT(n, I(1 << 60))))

    def msg(g):
        return GABS(g, rate, *pin(V.ex, V.st, inp), m)
    inc = rest.startswith('inc')
    sref = None
    g0 = z3.BitVec('g0', 64)
    if rest != '' and rest != 'ctx_clone':
        s = V.obj('state', f'{alg}{"inc" if inc else ""}ctx')
        sref = gkey(Ptr(s.obj, s.path + ('ctx',), [], None))
        if rest not in ('inc_init', 'absorb'):
            V.st.mem[sref] = g0
    if rest == '':
        out = V.array('output', 8, n if not dl else I(dl))
        ret, st = V.call([out, n, inp, m] if not dl else [out, inp, m])
        V.forall(st, 'output bytes', lambda k: z3.ULT(k, n if not dl else I(dl)),
                 lambda k: V.rd(H('output'), k, st=st) == GOUT(GFIN(msg(GINIT), rate, pb), rate, k))
    elif rest == 'inc_init':
        ret, st = V.call([s])
        V.prove(st, 'empty sponge', st.mem[sref] == GINIT)
    elif rest == 'inc_absorb':
        ret, st = V.call([s, inp, m])
        V.prove(st, 'input absorbed', st.mem[sref] == msg(g0))
    elif rest == 'inc_finalize' and not dl:
        ret, st = V.call([s])
        V.prove(st, 'finalised', st.mem[sref] == GFIN(g0, rate, pb))
    elif rest == 'inc_finalize':
        out = V.array('output', 8, I(dl))
        ret, st = V.call([out, s])
        V.forall(st, 'digest', lambda k: z3.ULT(k, I(dl)), lambda k: V.rd(H('output'), k, st=st) == GOUT(GFIN(g0, rate, pb), rate, k))
    elif rest == 'inc_squeeze':
        out = V.array('output', 8, n)
        ret, st = V.call([out, n, s])
        V.forall(st, 'output bytes', lambda k: z3.ULT(k, n), lambda k: V.rd(H('output'), k, st=st) == GOUT(g0, rate, k))
        V.prove(st, 'position', st.mem[sref] == GADV(g0, rate, n))
    elif rest == 'absorb':
        ret, st = V.call([s, inp, m])
        V.prove(st, 'absorbed and padded', st.mem[sref] == GFIN(msg(GINIT), rate, pb))
    elif rest == 'squeezeblocks':
        V.assume(z3.ULT(n, I(1 << 50)))
        out = V.array('output', 8, arith('*', n, rate))
        ret, st = V.call([out, n, s])
        V.forall(st, 'output bytes', lambda k: z3.ULT(k, arith('*', n, rate)), lambda k: V.rd(H('output'), k, st=st) == GOUT(g0, rate, k))
    elif rest == 'ctx_clone':
        src, dst = V.obj('src', f'{alg}ctx', readonly=True), V.obj('dst', f'{alg}ctx')
        a0 = V.st.mem[(src.obj, ('ctx',))]
        ret, st = V.call([dst, src])
        V.forall(st, 'copy', lambda k: z3.ULT(k, I(25)), lambda k: V.rd((dst.obj, ('ctx',)), k, st=st) == a0.read(V.ctx, [k]))
    else:
        raise Unsupported(f'no specification for {fn}')
    V.discharge(r)


def names(alg):
    if alg.startswith('shake'):
        return [alg] + [f'{alg}_{x}' for x in ('inc_init', 'inc_absorb', 'inc_finalize', 'inc_squeeze', 'absorb', 'squeezeblocks', 'ctx_clone')]
    return [alg] + [f'{alg}_{x}' for x in ('inc_init', 'inc_absorb', 'inc_finalize')]


u_w_shake128, u_w_shake256, u_w_256, u_w_384, u_w_512 = [wrap_unit(names(a)) for a in RATE]


def xc(alg, what):
    """contract of an incremental wrapper of fips202.c (proved above)"""
    r = bv(RATE[alg], 32)

    def c(ex, st, av, fr):
        if what == 'init':
            return kc_init(ex, st, av, fr)
        if what == 'absorb':
            return kc_absorb(ex, st, [av[0], r, av[1], av[2]], fr)
        if what == 'finalize':
            return kc_finalize(ex, st, [av[0], r, bv(0x1F, 8)], fr)
        return kc_squeeze(ex, st, [av[0], av[1], av[2], r], fr)
    return c


def u_csprng(cfg):
    """seeding of rng.c"""
    @unit(cfg, 'initialize_csprng')
    def u(cfg, p, r):
        C = {f'{a}_inc_{w}': xc(a, w) for a in ('shake128', 'shake256') for w in ('init', 'absorb', 'finalize', 'squeeze')}
        alg = 'shake128' if cfg.cat == '1' else 'shake256'
        rate = I(RATE[alg])
        n = z3.BitVec('seed_len', 32)
        V = Verif(cfg, 'rng', 'initialize_csprng', C, {})
        s = V.obj('state', f'{alg}incctx')
        seed = V.array('seed', 8, z64(n), readonly=True)
        ret, st = V.call([s, seed, n])
        V.prove(st, 'the generator is the extendable output of the seed bytes',
                st.mem[gkey(Ptr(s.obj, s.path, [], None))] == GFIN(GABS(GINIT, rate, *pin(V.ex, V.st, seed), z64(n)), rate, bv(0x1F, 8)))
        V.discharge(r)
    return u


def u_draw(cfg):
    """csprng_randombytes of rng.h: the next bytes of the stream, which moves on by exactly that many"""
    @unit(cfg, 'csprng_randombytes')
    def u(cfg, p, r):
        C = {f'{a}_inc_{w}': xc(a, w) for a in ('shake128', 'shake256') for w in ('init', 'absorb', 'finalize', 'squeeze')}
        alg = 'shake128' if cfg.cat == '1' else 'shake256'
        rate = I(RATE[alg])
        base = next((b for b in ('rng', 'seedtree', 'monomial', 'utils') if 'csprng_randombytes' in program(cfg, b).funcs), 'rng')
        n = z3.BitVec('xlen', 64)
        V = Verif(cfg, base, 'csprng_randombytes', C, {})
        V.assume(z3.ULT(n, I(1 << 32)))
        s = V.obj('state', f'{alg}incctx')
        g = gkey(Ptr(s.obj, s.path, [], None))
        g0 = z3.BitVec('g0', 64)
        V.st.mem[g] = g0
        out = V.array('x', 8, n)
        ret, st = V.call([out, n, s])
        V.forall(st, 'output bytes', lambda k: z3.ULT(k, n), lambda k: V.rd(H('x'), k, st=st) == GOUT(g0, rate, k))
        V.prove(st, 'position', st.mem[g] == GADV(g0, rate, n))
        V.discharge(r)
    return u
