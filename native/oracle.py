"""Independent executable specification of LESS (written from the specification's
definitions, not from the C code), used only to replay counterexamples and as the
oracle of the bounded stand-ins."""
import hashlib
import numpy as np

Q = 127


class P:
    def __init__(self, cat, var):
        self.cat, self.var = cat, var
        self.N, self.K, self.S = {'1': (252, 126, 16), '3': (400, 200, 24), '5': (548, 274, 32)}[cat]
        self.NK, self.T, self.W, self.MAXB = {
            ('1', 'BALANCED'): (2, 247, 30, 1472), ('1', 'INTERMEDIATE'): (4, 244, 20, 1152),
            ('1', 'SHORT_SIG'): (8, 198, 17, 1056), ('3', 'BALANCED'): (2, 759, 33, 3912),
            ('3', 'SHORT_SIG'): (3, 895, 26, 3264), ('5', 'BALANCED'): (2, 1352, 40, 7168),
            ('5', 'SHORT_SIG'): (3, 907, 37, 5600)}[(cat, var)]
        self.H = 2 * self.S
        self.SK = 2 * self.S
        self.NBITS = self.N.bit_length()
        self.LEAVES = 1 << self.T.bit_length()
        self.NODES = 2 * self.LEAVES - 1
        self.MAXSEEDS = self.MAXB // self.S
        self.AB = (7 * self.K + 7) // 8 + (self.NBITS * self.K + 7) // 8
        self.RB = (7 * (self.N - self.K) * self.K + 7) // 8 + (self.N + 7) // 8
        self.pos = np.uint8 if cat == '1' else np.uint16

    def siglen(self, n):
        return 2 * self.H + self.AB * self.W + n * self.S + 1

    def xof(self, data):
        return Stream(data, hashlib.shake_128 if self.cat == '1' else hashlib.shake_256)

    def hash(self, data):
        return {'1': hashlib.sha3_256, '3': hashlib.sha3_384, '5': hashlib.sha3_512}[self.cat](data).digest()


class Stream:
    def __init__(self, data, alg):
        self.h = alg(bytes(data))
        self.buf = b''
        self.pos = 0

    def read(self, n):
        need = self.pos + n
        if need > len(self.buf):
            self.buf = self.h.digest(max(need, 2 * len(self.buf), 4096))
        r = self.buf[self.pos:need]
        self.pos = need
        return r


INV = np.array([0] + [pow(x, Q - 2, Q) for x in range(1, Q)], dtype=np.int64)


def sample(st, lo, hi, n):
    span = hi - lo
    bits = max(1, span.bit_length())
    out = []
    while True:
        w = int.from_bytes(st.read(8), 'little')
        for i in range(64 // bits):
            v = (w >> (bits * i)) & ((1 << bits) - 1)
            if v <= span:
                out.append(v + lo)
            if len(out) >= n:
                return out


def shuffle(p, st):
    r = np.frombuffer(st.read(4 * p.N), dtype='<u4')
    perm = list(range(p.N))
    for i in range(p.N - 1):
        j = i + int(r[i]) % (p.N - i)
        perm[i], perm[j] = perm[j], perm[i]
    return perm


def expand_monomial(p, data):
    st = p.xof(data)
    c = sample(st, 1, Q - 1, p.N)
    return np.array(c, dtype=np.int64), np.array(shuffle(p, st), dtype=np.int64)


def mono_eph(p, seed, salt, r):
    return expand_monomial(p, bytes(seed) + bytes(salt) + int(r).to_bytes(2, 'little'))


def mono_inv(m):
    c, s = m
    c2, s2 = np.zeros_like(c), np.zeros_like(s)
    s2[s] = np.arange(len(s))
    c2[s] = INV[c]
    return c2, s2


def mono_mul(a, b):
    (ca, pa), (cb, pb) = a, b
    return (ca * cb[pa]) % Q, pb[pa]


def code(p, seed):
    """full generator [I | A] of the public code"""
    st = p.xof(seed)
    G = np.zeros((p.K, p.N), dtype=np.int64)
    G[:, :p.K] = np.eye(p.K, dtype=np.int64)
    for i in range(p.K):
        G[i, p.K:] = sample(st, 0, Q - 1, p.N - p.K)
    return G


def apply_mono(G, m):
    c, s = m
    R = np.zeros_like(G)
    R[:, s] = G * c[None, :] % Q
    return R


def rref(G):
    G = G.copy() % Q
    k, n = G.shape
    piv = []
    r = 0
    for c in range(n):
        if r == k:
            break
        nz = np.nonzero(G[r:, c])[0]
        if len(nz) == 0:
            continue
        j = r + nz[0]
        if j != r:
            G[[r, j]] = G[[j, r]]
        G[r] = G[r] * INV[G[r, c]] % Q
        f = G[:, c].copy()
        f[r] = 0
        G = (G - f[:, None] * G[r][None, :]) % Q
        piv.append(c)
        r += 1
    return G, piv, r == k


def normalize_col(c):
    nz = np.nonzero(c)[0]
    if len(nz) == 0:
        return c.copy()
    return c * INV[c[nz[0]]] % Q


def commit_cols(G, piv):
    """sorted normalised non-pivot columns as bytes of the K x (N-K) matrix"""
    pset = set(piv)
    cols = sorted(bytes(normalize_col(G[:, c]).astype(np.uint8)) for c in range(G.shape[1]) if c not in pset)
    return np.array([list(c) for c in cols], dtype=np.uint8).T


def prepare_digest(p, G, m):
    R, piv, ok = rref(apply_mono(G, m))
    c, s = m
    src = np.zeros(p.N, dtype=np.int64)
    src[s] = np.arange(p.N)
    ap = src[piv]
    return commit_cols(R, piv), (c[ap], ap)


def action_apply(p, G, a):
    c, s = a
    used = set(int(x) for x in s)
    rest = [j for j in range(p.N) if j not in used]
    return np.concatenate([G[:, s] * c[None, :] % Q, G[:, rest]], axis=1)


def action_valid(p, a):
    c, s = a
    return bool(np.all((c >= 1) & (c <= 126)) and np.all(s < p.N) and len(set(int(x) for x in s)) == p.K)


def compose(m, a):
    c, s = m
    ac, ap = a
    src = np.zeros(len(s), dtype=np.int64)
    src[s] = np.arange(len(s))
    j = src[ap]
    return c[j] * ac % Q, j


def bits_pack(vals, w):
    acc = 0
    for i, v in enumerate(vals):
        acc |= int(v) << (w * i)
    n = (w * len(vals) + 7) // 8
    return acc, w * len(vals), n


def bits_unpack(x, w, n):
    return np.array([(x >> (w * i)) & ((1 << w) - 1) for i in range(n)], dtype=np.int64)


def action_encode(p, a):
    """positions in NBITS-bit little endian groups; then 7-bit coefficients.  In
    category 5 the coefficient stream continues in the partially filled byte."""
    c, s = a
    pa, pn, pb = bits_pack(s, p.NBITS)
    ca, cn, cb = bits_pack(c, 7)
    if p.cat == '5':
        tot = pa | (ca << pn)
        n = (pn + cn + 7) // 8
        return tot.to_bytes(n, 'little').ljust(p.AB, b'\0'), n
    b = pa.to_bytes(pb, 'little') + ca.to_bytes(cb, 'little')
    return b, len(b)


def action_decode(p, b):
    pn = p.NBITS * p.K
    if p.cat == '5':
        x = int.from_bytes(b, 'little')
        return bits_unpack(x >> pn, 7, p.K), bits_unpack(x, p.NBITS, p.K)
    pb = (pn + 7) // 8
    return (bits_unpack(int.from_bytes(b[pb:], 'little'), 7, p.K),
            bits_unpack(int.from_bytes(b[:pb], 'little'), p.NBITS, p.K))


def rref_encode(p, G, piv):
    f = 0
    for c in piv:
        f |= 1 << c
    np_ = [j for j in range(p.N) if j not in set(piv)]
    a, n, nb = bits_pack(G[:, np_].reshape(-1), 7)
    return f.to_bytes((p.N + 7) // 8, 'little') + a.to_bytes(nb, 'little')


def rref_decode(p, b):
    """matrix or None when the bytes are not a canonical encoding of K pivots"""
    fb = (p.N + 7) // 8
    f = int.from_bytes(b[:fb], 'little')
    piv = [j for j in range(p.N) if (f >> j) & 1]
    if len(piv) != p.K:
        return None, piv
    bits = np.unpackbits(np.frombuffer(b[fb:], dtype=np.uint8), bitorder='little')[:7 * p.K * (p.N - p.K)]
    v = (bits.reshape(-1, 7) * (1 << np.arange(7))).sum(axis=1)
    if (v >= Q).any():
        return None, piv
    G = np.zeros((p.K, p.N), dtype=np.int64)
    G[np.arange(p.K), piv] = 1
    np_ = [j for j in range(p.N) if j not in set(piv)]
    G[:, np_] = v.reshape(p.K, p.N - p.K)
    return G, piv


def fixed_weight(p, digest):
    st = p.xof(digest)
    vb = max(1, (p.NK - 1).bit_length())
    pb = (p.T - 1).bit_length()
    x = [0] * p.T
    placed = 0
    while placed < p.W:
        w = int.from_bytes(st.read(2), 'little')
        v = w & ((1 << vb) - 1)
        pos = (w >> vb) & ((1 << pb) - 1)
        if p.cat == '1':
            pos = ((w >> vb) & 0xff) & ((1 << pb) - 1)
        if v >= p.NK or pos >= p.T or x[pos] != 0:
            continue
        x[pos] = v
        placed += v != 0
    return x


def tree(p, root, salt):
    t = [b''] * p.NODES
    t[0] = bytes(root)
    for i in range(p.LEAVES - 1):
        o = p.xof(bytes(salt) + t[i]).read(2 * p.S)
        t[2 * i + 1], t[2 * i + 2] = o[:p.S], o[p.S:]
    return t


def tree_flags(p, hidden):
    f = [0] * p.NODES
    for i in range(p.T):
        f[p.LEAVES - 1 + i] = 1 if hidden[i] else 0
    for i in range(p.LEAVES - 2, -1, -1):
        f[i] = f[2 * i + 1] | f[2 * i + 2]
    return f


def path_nodes(p, hidden):
    f = tree_flags(p, hidden)
    return [i for i in range(1, p.NODES) if not f[i] and f[(i - 1) // 2]]


def path(p, t, hidden):
    return [t[i] for i in path_nodes(p, hidden)]


def rebuild(p, seeds, salt, hidden):
    f = tree_flags(p, hidden)
    t = [b'\0' * p.S] * p.NODES
    for i, s in zip(path_nodes(p, hidden), seeds):
        t[i] = bytes(s)
    for i in range(p.LEAVES - 1):
        if not f[i]:
            o = p.xof(bytes(salt) + t[i]).read(2 * p.S)
            t[2 * i + 1], t[2 * i + 2] = o[:p.S], o[p.S:]
    return t[p.LEAVES - 1:]


def keygen(p, rnd):
    csk = rnd.read(p.SK)
    g0 = rnd.read(p.S)
    st = p.xof(csk)
    seeds = [st.read(p.SK) for _ in range(p.NK - 1)]
    G = code(p, g0)
    pk = g0
    for s in seeds:
        R, piv, ok = rref(apply_mono(G, mono_inv(expand_monomial(p, s))))
        pk += rref_encode(p, R, piv)
    return pk, csk + g0


def sign(p, sk, m, rnd, prep=None):
    csk, g0 = sk[:p.SK], sk[p.SK:]
    st = p.xof(csk)
    seeds = [st.read(p.SK) for _ in range(p.NK - 1)]
    eseed = rnd.read(p.S)
    salt = rnd.read(p.H)
    t = tree(p, eseed, salt)
    G = code(p, g0)
    h = {'1': hashlib.sha3_256, '3': hashlib.sha3_384, '5': hashlib.sha3_512}[p.cat]()
    acts = []
    for i in range(p.T):
        V, a = (prep or prepare_digest)(p, G, mono_eph(p, t[p.LEAVES - 1 + i], salt, i))
        h.update(V.tobytes())
        acts.append(a)
    h.update(m)
    h.update(salt)
    d = h.digest()
    x = fixed_weight(p, d)
    seedsp = path(p, t, x)
    out = b''
    for i in range(p.T):
        if x[i]:
            out += action_encode(p, compose(expand_monomial(p, seeds[x[i] - 1]), acts[i]))[0]
    return salt + out + d + b''.join(seedsp) + bytes([len(seedsp)])


def verify_digest(p, pk, m, salt, body, store, x, prep=None):
    """digest recomputed for challenge x, or None when a key or response in use is malformed"""
    store = bytes(store).ljust(p.MAXB + 1, b'\0')
    n = len(path_nodes(p, x))
    leaves = rebuild(p, [store[i * p.S:(i + 1) * p.S] for i in range(n)], salt, x)
    G0 = code(p, pk[:p.S])
    h = {'1': hashlib.sha3_256, '3': hashlib.sha3_384, '5': hashlib.sha3_512}[p.cat]()
    j = 0
    cache = {}
    for i in range(p.T):
        if x[i] == 0:
            V, _ = (prep or prepare_digest)(p, G0, mono_eph(p, leaves[i], salt, i))
        else:
            k = x[i] - 1
            if k not in cache:
                cache[k] = rref_decode(p, pk[p.S + k * p.RB:p.S + (k + 1) * p.RB])[0]
            G = cache[k]
            if G is None:
                return None
            a = action_decode(p, body[j * p.AB:(j + 1) * p.AB])
            j += 1
            if not action_valid(p, a):
                return None
            R, piv, ok = rref(action_apply(p, G, a))
            V = commit_cols(R, piv)
        h.update(V.tobytes())
    h.update(m)
    h.update(salt)
    return h.digest()


def verify(p, pk, m, sig):
    salt, body, d = sig[:p.H], sig[p.H:p.H + p.W * p.AB], sig[p.H + p.W * p.AB:2 * p.H + p.W * p.AB]
    return int(verify_digest(p, pk, m, salt, body, sig[2 * p.H + p.W * p.AB:], fixed_weight(p, d)) == d)


def sign_open(p, sm, pk):
    if len(sm) == 0:
        return -1, None
    n = sm[-1]
    if n > p.MAXSEEDS or len(sm) < p.siglen(n):
        return -1, None
    ml = len(sm) - p.siglen(n)
    return (0 if verify(p, pk, sm[:ml], sm[ml:]) else -1), sm[:ml]
