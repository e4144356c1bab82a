"""Contracts of crypto_sign_keypair, crypto_sign and crypto_sign_open (sign.c) over the contracts of LESS.c."""
import z3
from vcg import *
from harness import *
from common import *
from spec_monomial import H, lt, unit
from spec_commit import skolem
from spec_less import fn, Part
from cbuiltins import bytes_reader, fill_bytes, is_struct, byte_leaves, span_check


class Sizes:
    def __init__(self, p):
        self.fixed = 2 * p.H + p.W * p.AB          # salt, responses, digest
        self.max = self.fixed + p.MAXB + 1         # reserved space: sizeof(sign_t)
        self.seeds = p.MAXB // p.S

    def sig(self, p, n):
        """length of a signature with n published seeds"""
        return n * p.S + (self.fixed + 1)


def whole(ex, st, label, p, obj):
    ex.oblige(st, f'{label} {ex.site}', And(z3.BoolVal(p.obj == obj.obj and p.path == obj.path), *[x == 0 for x in p.idxs]), 'pre')


def c_verify(V, m, pk, S, seen):
    """LESS_verify as seen by its caller: its verdict is VERD; what it was given is recorded"""
    p = V.p

    def c(ex, st, av, fr):
        k_, mm, n, s = av
        whole(ex, st, 'the public key is passed on', k_, pk)
        seen['message'] = bytes_reader(ex, st, mm, n)
        seen['mlen'] = n
        if is_struct(ex, s):
            ls, total = byte_leaves(ex, s)
            ex.oblige(st, f'the signature object is complete {ex.site}', z3.BoolVal(total == S.max), 'pre')
            seen['sig'] = [(st.mem[(s.obj, l.path)], o, strides, l.dims) for l, o, strides, _ in ls]
        else:
            rd = bytes_reader(ex, st, s, I(S.max))
            seen['sig'] = [(Lam(lambda x, ix: rd(x, ix[0]), 1, 8), 0, [1], [S.max])]
        seen['path'] = st.path
        V_ = z3.BitVec('VERDICT', 32)
        ex.ctx.fact(z3.ULE(V_, bv(1, 32)))
        return V_
    return c


def open_setup(V, smlen, sm, mcap):
    """declares m, mlen and pk; returns pointers"""
    m = V.array('m', 8, mcap)
    ml = V.obj('mlen', ty=Ty('bv', w=64))
    pk = V.obj('pk', 'pubkey_t', readonly=True)
    return m, ml, pk


# ------------------------------------------------------------------ C21
def u_open(cfg):
    @unit(cfg, 'crypto_sign_open')
    def u(cfg, p, r):
        V = Verif(cfg, 'sign', 'crypto_sign_open')
        ex, S = V.ex, Sizes(p)
        smlen = fresh(64, 'smlen')
        V.assume(z3.ULT(smlen, I(1 << 62)))
        sm = V.array('sm', 8, smlen, readonly=True)
        a = V.st.mem[(sm.obj, ())]
        last = a.read(V.ctx, [smlen - 1])
        need = S.sig(p, zext(last, 64))
        fits = And(z3.UGE(smlen, I(S.fixed + 1)), z3.ULE(last, bv(min(S.seeds, 255), 8)), z3.UGE(smlen, need))
        # the caller provides room for the message part only: nothing beyond it may be written
        cap = fresh(64, 'room')
        V.assume(cap == Ite(fits, smlen - need, I(0)))
        m, ml, pk = open_setup(V, smlen, sm, cap)
        m0, ml0 = V.st.mem[(m.obj, ())], V.st.mem[(ml.obj, ())]
        seen = {}
        ex.contracts['LESS_verify'] = c_verify(V, m, pk, S, seen)
        ret, st = V.call([m, ml, sm, smlen, pk])
        verd = z3.BitVec('VERDICT', 32)
        rej = st.copy()
        rej.path = And(st.path, Not(fits))
        acc = st.copy()
        acc.path = And(st.path, fits)
        V.prove(st, 'returns 0 or -1', Or(ret == 0, ret == bv(0xffffffff, 32)))
        V.prove(rej, 'a string too short for the signature it claims is rejected', ret == bv(0xffffffff, 32))
        V.prove(acc, 'otherwise the verdict of the verification is returned', ret == Ite(verd == 1, bv(0, 32), bv(0xffffffff, 32)))
        V.prove(acc, 'length of the message', st.mem[(ml.obj, ())] == smlen - need)
        V.forall(acc, 'the message is the first part', lambda k: z3.ULT(k, smlen - need), lambda k: V.rd((m.obj, ()), k, st=st) == a.read(V.ctx, [k]))
        if 'sig' not in seen:
            raise Unsupported('the verification is not called')
        V.prove(acc, 'the message verified has that length', z64(seen['mlen']) == smlen - need)
        V.forall(acc, 'the message verified is the message returned', lambda k: z3.ULT(k, smlen - need), lambda k: seen['message'](V.ctx, k) == a.read(V.ctx, [k]))
        for q, (f, o, strides, dims) in enumerate(seen['sig']):
            def lin(ix):
                k = I(o)
                for x, s in zip(ix, strides):
                    k = k + x * s
                return k
            V.forall(acc, f'the signature verified is the rest of the string, then zeros (part {q})', lambda *ix: And(*[lt(x, d) for x, d in zip(ix, dims)]),
                     lambda *ix: f.read(V.ctx, list(ix)) == Ite(z3.ULT(lin(ix), need), a.read(V.ctx, [smlen - need + lin(ix)]), bv(0, 8)), len(dims))
        V.discharge(r)
    return u


# ------------------------------------------------------------------ C22
def sign_parts(V, S):
    p, ex = V.p, V.ex
    mlen = fresh(64, 'mlen_in')
    V.assume(z3.ULT(mlen, I(1 << 61)))
    m = V.array('msg', 8, mlen, readonly=True)
    cap = fresh(64, 'smcap')
    V.assume(cap == mlen + S.max)
    sm = V.array('sm', 8, cap)
    sl = V.obj('smlen', ty=Ty('bv', w=64))
    sk = V.obj('sk', 'prikey_t', readonly=True)
    NPUB = z3.BitVec('NPUB', 64)
    V.assume(z3.ULE(NPUB, I(S.seeds)))
    SIG = fn('SIGBYTE', 1, 8)

    def c_sign(ex, st, av, fr):
        k_, mm, n, out = av
        whole(ex, st, 'the secret key is passed on', k_, sk)
        ex.oblige(st, f'the whole message is signed {ex.site}', z64(n) == mlen, 'pre')
        rd = bytes_reader(ex, st, mm, n)
        a = st.mem[(m.obj, ())]
        skolem(ex, st, f'the message is signed {ex.site}', lambda k: z3.ULT(k, mlen), lambda k: rd(ex.ctx, k) == a.read(ex.ctx, [k]), 1)
        # LESS_sign: the count byte follows the published seeds, the rest of the reserved space is zero
        fill_bytes(ex, st, out, I(S.max), lambda c, k: Ite(k == NPUB * p.S + S.fixed, trunc(NPUB, 8), Ite(z3.ULT(k, NPUB * p.S + S.fixed), SIG(k), bv(0, 8))))
        return NPUB
    ex.contracts['LESS_sign'] = c_sign
    return mlen, m, sm, sl, sk, NPUB, SIG, cap


def u_sign_api(cfg):
    @unit(cfg, 'crypto_sign')
    def u(cfg, p, r):
        V = Verif(cfg, 'sign', 'crypto_sign')
        ex, S = V.ex, Sizes(p)
        mlen, m, sm, sl, sk, NPUB, SIG, cap = sign_parts(V, S)
        a = V.st.mem[(m.obj, ())]
        ret, st = V.call([sm, sl, m, mlen, sk])
        out = st.mem[(sm.obj, ())]
        n = S.sig(p, NPUB)
        V.prove(st, 'returns 0', ret == 0)
        V.prove(st, 'reported length is the message length plus the signature length', st.mem[(sl.obj, ())] == mlen + n)
        V.forall(st, 'the message comes first, unmodified', lambda k: z3.ULT(k, mlen), lambda k: out.read(V.ctx, [k]) == a.read(V.ctx, [k]))
        V.forall(st, 'then the signature', lambda k: z3.ULT(k, n - 1), lambda k: out.read(V.ctx, [mlen + k]) == SIG(k))
        V.prove(st, 'its last byte counts the published seeds', zext(out.read(V.ctx, [mlen + n - 1]), 64) == NPUB)
        # opening the result: same split, same message
        size = st.mem[(sl.obj, ())]
        m2 = V.array('m2', 8, size)
        ml = V.obj('mlen2', ty=Ty('bv', w=64))
        pk = V.obj('pk', 'pubkey_t', readonly=True)
        for o in ('m2', 'mlen2', 'pk'):
            for k_ in list(V.st.mem):
                if k_[0] == ('H', o):
                    st.mem[k_] = V.st.mem[k_]
        seen = {}
        ex.contracts['LESS_verify'] = c_verify(V, m2, pk, S, seen)
        ex.readonly.add(sm.obj)
        ret2, s2 = V.ex.call('crypto_sign_open', [m2, ml, sm, size, pk], st)
        V.prove(s2, 'opening returns the verdict of the verification', ret2 == Ite(z3.BitVec('VERDICT', 32) == 1, bv(0, 32), bv(0xffffffff, 32)))
        V.prove(s2, 'opening splits at the same point', s2.mem[(ml.obj, ())] == mlen)
        V.forall(s2, 'opening returns the message', lambda k: z3.ULT(k, mlen), lambda k: V.rd((m2.obj, ()), k, st=s2) == a.read(V.ctx, [k]))
        V.prove(s2, 'the message verified has its length', z64(seen['mlen']) == mlen)
        V.forall(s2, 'the message verified is the message signed', lambda k: z3.ULT(k, mlen), lambda k: seen['message'](V.ctx, k) == a.read(V.ctx, [k]))
        V.discharge(r)
    return u


# ------------------------------------------------------------------ C23 (interface)
def u_keypair(cfg):
    @unit(cfg, 'crypto_sign_keypair')
    def u(cfg, p, r):
        V = Verif(cfg, 'sign', 'crypto_sign_keypair')
        pk, sk = V.obj('pk', 'pubkey_t'), V.obj('sk', 'prikey_t')
        n = []

        def c(ex, st, av, fr):
            whole(ex, st, 'secret key', av[0], sk)
            whole(ex, st, 'public key', av[1], pk)
            n.append(1)
        V.ex.contracts['LESS_keygen'] = c
        ret, st = V.call([pk, sk])
        V.prove(st, 'returns 0', ret == 0)
        V.prove(st, 'generates one key pair', z3.BoolVal(len(n) == 1))
        V.discharge(r)
    return u


# ------------------------------------------------------------------ C22, C23 (sizes promised to callers)
def u_api(cfg):
    """a caller who provides the space api.h asks for provides enough (the contracts above start from that much space)"""
    @unit(cfg, 'sizes in api.h')
    def u(cfg, p, r):
        def room(V, ty):
            n = 0
            for l in V.ex.layout(V.type(ty)):
                if l.ty.k != 'bv' or l.ty.w != 8:
                    raise Unsupported(f'{ty} is not made of bytes')
                k = 1
                for d in l.dims:
                    k *= d
                n += k
            return n
        V = None
        for f, want in (('vx_public_key_bytes', lambda V: room(V, 'pubkey_t')), ('vx_secret_key_bytes', lambda V: room(V, 'prikey_t')), ('vx_signature_bytes', lambda V: Sizes(p).max)):
            V = Verif(cfg, 'api', f)
            ret, st = V.call([])
            n = want(V)
            V.prove(st, f'{f}: {n} bytes are provided', z3.And(z3.UGE(z64(ret), I(n)), z3.ULT(z64(ret), I(1 << 32))))
            V.discharge(r)
        r.functions = []
    return u
