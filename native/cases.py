"""Bounded differential cases: the real code of one configuration against the
executable specification (oracle.py).  They replay counterexamples and stand in
(labelled bounded) where the verifier cannot follow the code.

A case is a function case(lib, rng, k) -> None | message; k is the case number, rng a
generator seeded from (seed, case name, k), so a failing case is reproduced from k."""
import ctypes, hashlib, os, subprocess
import numpy as np
import oracle as O
from lib import Buf, Lib

Q = 127
vp = ctypes.c_void_p


def out(b):
    return b.p


def inp(bs):
    b = Buf(max(1, len(bs)))
    b.arr[:len(bs)] = np.frombuffer(bytes(bs), dtype=np.uint8)
    return b


def rmono(rng, N, k=0):
    c = rng.integers(1, 127, N)
    s = rng.permutation(N)
    if k % 5 == 3:
        s = np.arange(N)
    if k % 5 == 4:
        s = np.arange(N)[::-1].copy()
        c[:] = 126
    if k % 11 == 7:         # almost the identity
        s, c = np.arange(N), np.ones(N, dtype=np.int64)
        i, j = int(rng.integers(0, N)), int(rng.integers(0, N))
        s[[i, j]] = s[[j, i]]
        c[int(rng.integers(0, N))] = int(rng.integers(1, 127))
    if k % 11 == 8:         # a rotation
        s = np.roll(np.arange(N), int(rng.integers(0, N)))
    return c.astype(np.int64), s.astype(np.int64)


def rmat(rng, K, N, k=0):
    m = k % 6
    if m == 0:
        return rng.integers(0, 127, (K, N))
    if m == 1:
        return rng.integers(125, 127, (K, N))
    if m == 2:
        return rng.integers(0, 2, (K, N))
    if m == 3:
        return rng.integers(0, 127, (K, N)) * (rng.random((K, N)) < 0.02)
    if m == 4:
        return np.full((K, N), 126)
    G = rng.integers(0, 127, (K, N))
    G[:, rng.permutation(N)[:N // 3]] = 0
    return G


def rstream(lib, rng, n=None):
    n = n or int(rng.integers(1, 100))
    b = rng.integers(0, 256, n, dtype=np.uint8)
    m = int(rng.integers(0, 48))
    if m < 6:               # constant, or constant at one end
        v = [0, 0, 255, 255, 128, 1][m]
        b[:] = v
    elif m == 6:
        b[:n // 2] = 0
    elif m == 7:
        b[n // 2:] = 0
    elif m == 8:
        b[0] = b[-1] = 0
    return b.tobytes()


def guards(*bs):
    for i, b in enumerate(bs):
        if not b.guard_ok():
            return f'write outside buffer {i}'
    return None


def differ(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or not (a == b).all():
        w = np.argwhere(a != b)[:1].tolist() if a.shape == b.shape else 'shape'
        return f'{what} differs from the specification at {w}'
    return None


def first(*xs):
    for x in xs:
        if x:
            return x
    return None


# ------------------------------------------------------------------ C01
def field(lib, rng, k):
    if k:
        return None
    c = lib.c
    if lib.has('vx_fq_red'):
        for x in range(1 << 16):
            if c.vx_fq_red(x) != x % 127:
                return f'fq_red({x}) = {c.vx_fq_red(x)}'
    if lib.has('vx_fq_inv'):
        for x in range(127):
            if c.vx_fq_inv(x) != int(O.INV[x]):
                return f'fq_inv({x}) = {c.vx_fq_inv(x)}'
    if lib.has('vx_br_mul'):
        for a in range(127):
            for b in range(127):
                r = c.vx_br_mul(a, b) & 0xff
                q = c.vx_br_red(r) & 0xff
                if q != a * b % 127:
                    return f'br_red(br_mul({a},{b})) = {q}'
    return None


# ------------------------------------------------------------------ C02
def mono_ops(lib, rng, k):
    p, c = lib.p, lib.c
    A, B = rmono(rng, p.N, k), rmono(rng, p.N, k // 5)
    r = lib.mono()
    a, b = lib.mono(A), lib.mono(B)
    c.monomial_mat_mul(r.p, a.p, b.p)
    e = O.mono_mul(A, B)
    g = lib.mono_get(r)
    x = first(differ(g[0], e[0], 'product coefficients'), differ(g[1], e[1], 'product permutation'), guards(r, a, b))
    if x:
        return x
    r = lib.mono()
    c.monomial_mat_inv(r.p, a.p)
    e, g = O.mono_inv(A), lib.mono_get(r)
    x = first(differ(g[0], e[0], 'inverse coefficients'), differ(g[1], e[1], 'inverse permutation'), guards(r))
    if x:
        return x
    r = lib.mono()
    c.monomial_mat_id(r.p)
    g = lib.mono_get(r)
    x = first(differ(g[0], np.ones(p.N), 'identity coefficients'), differ(g[1], np.arange(p.N), 'identity permutation'), guards(r))
    if x:
        return x
    act = (rng.integers(1, 127, p.K), rng.permutation(p.N)[:p.K])
    o, i = lib.act(), lib.act(act)
    c.monomial_compose_action(o.p, a.p, i.p)
    e, g = O.compose(A, act), lib.act_get(o)
    return first(differ(g[0], e[0], 'composed coefficients'), differ(g[1], e[1], 'composed positions'), guards(o, i, a))


# ------------------------------------------------------------------ C03
def expand(lib, rng, k):
    p, c = lib.p, lib.c
    seed, salt = rstream(lib, rng, p.S), rstream(lib, rng, p.H)
    rd = int(rng.integers(0, 1 << 16)) if k % 2 else int(rng.integers(0, p.T))
    r = lib.mono()
    c.monomial_mat_seed_expand_salt_rnd(r.p, inp(seed).p, inp(salt).p, ctypes.c_uint16(rd))
    e, g = O.mono_eph(p, seed, salt, rd), lib.mono_get(r)
    x = first(differ(g[0], e[0], 'ephemeral coefficients'), differ(g[1], e[1], 'ephemeral permutation'), guards(r))
    if x:
        return x
    sk = rstream(lib, rng, p.SK)
    r = lib.mono()
    c.monomial_mat_seed_expand_prikey(r.p, inp(sk).p)
    e, g = O.expand_monomial(p, sk), lib.mono_get(r)
    x = first(differ(g[0], e[0], 'private coefficients'), differ(g[1], e[1], 'private permutation'), guards(r))
    if x:
        return x
    d = rnd_seed(lib, rng)
    r = lib.mono()
    c.monomial_mat_rnd(r.p)
    e, g = O.expand_monomial(p, d), lib.mono_get(r)
    return first(differ(g[0], e[0], 'random coefficients'), differ(g[1], e[1], 'random permutation'), guards(r))


# ------------------------------------------------------------------ C04
def samplers(lib, rng, k):
    p, c = lib.p, lib.c
    if lib.has('vx_fq_star'):
        n = int(rng.integers(1, 3 * p.N)) if k % 3 else (k // 3) % 20 + 1
        data = rstream(lib, rng)
        for f, lo in ((c.vx_fq_star, 1), (c.vx_rand_q, 0)):
            st = Buf(lib.sz[14])
            c.initialize_csprng(st.p, inp(data).p, ctypes.c_uint32(len(data)))
            b = Buf(n)
            f(st.p, b.p, ctypes.c_size_t(n))
            s = p.xof(data)
            e = O.sample(s, lo, 126, n)
            nx = Buf(16)
            c.vx_csprng(st.p, nx.p, ctypes.c_ulonglong(16)) if lib.has('vx_csprng') else None
            x = first(differ(b.arr, e, 'sampled elements'), guards(b, st),
                      differ(nx.arr, np.frombuffer(s.read(16), dtype=np.uint8), 'stream position after sampling') if lib.has('vx_csprng') else None)
            if x:
                return x
    if k % 4 == 2:
        d = rnd_seed(lib, rng)
        b = lib.gen()
        c.generator_rnd(b.p)
        s = p.xof(d)
        return first(differ(lib.gen_get(b), np.array([O.sample(s, 0, 126, p.N) for _ in range(p.K)]), 'random matrix'), guards(b))
    if k % 4 == 0:
        seed = rstream(lib, rng, p.S)
        r = lib.rref()
        c.generator_SF_seed_expand(r.p, inp(seed).p)
        G = O.code(p, seed)
        return first(differ(lib.rref_get(r), G[:, p.K:], 'public code'),
                     differ(lib.rref_pos(r), np.arange(p.K, p.N), 'non-pivot positions'), guards(r))
    return None


# ------------------------------------------------------------------ C05 / C06
def ract(rng, p, k):
    m = k % 6
    s = rng.permutation(p.N)[:p.K]
    c = rng.integers(0, 127, p.K)
    if m == 1:
        s, c = np.full(p.K, p.N - 1), np.full(p.K, 126)
    if m == 2:
        s = rng.integers(0, p.N, p.K)
    if m == 3:
        s, c = np.zeros(p.K, int), np.zeros(p.K, int)
        j = int(rng.integers(0, p.K))
        s[j], c[j] = p.N - 1, 126
    return c, s


def action_codec(lib, rng, k):
    p, c = lib.p, lib.c
    a = ract(rng, p, k)
    e, n = O.action_encode(p, a)
    o1, o2 = Buf(p.AB, 0), Buf(p.AB, 0xFF)
    i = lib.act(a)
    c.compress_monom_action(o1.p, i.p)
    c.compress_monom_action(o2.p, i.p)
    x = first(guards(o1, o2, i), None if o1.bytes()[:n] == e[:n] else 'encoding differs from the specification',
              None if o1.bytes()[:n] == o2.bytes()[:n] else 'encoding depends on previous buffer contents')
    if x:
        return x
    d = lib.act()
    c.expand_to_monom_action(d.p, o1.p)
    g = lib.act_get(d)
    x = first(differ(g[0], a[0], 'decoded coefficients'), differ(g[1], a[1], 'decoded positions'), guards(d, o1))
    if x:
        return x
    raw = rstream(lib, rng, p.AB)
    d = lib.act()
    c.expand_to_monom_action(d.p, inp(raw).p)
    g, e = lib.act_get(d), O.action_decode(p, raw)
    return first(differ(g[0], e[0], 'decoded coefficients'), differ(g[1], e[1], 'decoded positions'), guards(d))


def action_valid(lib, rng, k):
    p, c = lib.p, lib.c
    s, co = rng.permutation(p.N)[:p.K], rng.integers(1, 127, p.K)
    m = k % 12
    i, j = int(rng.integers(0, p.K)), int(rng.integers(0, p.K))
    hi = 255 if p.cat == '1' else 65535
    if m == 1:
        s[i] = s[j]
    elif m == 2:
        s[i] = p.N
    elif m == 3:
        s[i] = int(rng.integers(p.N, hi + 1))
    elif m == 4:
        co[i] = 0
    elif m == 5:
        co[i] = 127
    elif m == 6:
        co[i] = int(rng.integers(127, 256))
    elif m == 7:
        s[p.K - 1] = s[0]
    elif m == 8:
        s[0] = p.N - 1 if p.N - 1 not in s[1:] else s[0]
    elif m == 9:
        s[p.K - 1] = min(hi, p.N)
    elif m == 10:
        co[p.K - 1] = 0
    elif m == 11:
        s[i] = (int(s[j]) & ~1) | (1 - (int(s[j]) & 1))
    o = (k // 12) % 5       # in ascending or descending order, or a run of consecutive positions
    if o == 1:
        s = np.sort(s)
    elif o == 2:
        s = np.sort(s)[::-1].copy()
    elif o == 3:
        s = np.where(s < p.N, (np.arange(p.K) + i) % p.N, s)
        if m in (1, 7, 11):
            s[i] = s[j]
    elif o == 4 and m in (1, 7, 11):
        s[i] = s[(i + 1) % p.K]
    b = lib.act((co, s))
    r = c.is_monom_action_valid(b.p)
    e = O.action_valid(p, (co, s))
    return None if bool(r) == e else f'verdict {r} for an action that is {"" if e else "not "}well formed'


# ------------------------------------------------------------------ C07
def monomial_mul(lib, rng, k):
    p, c = lib.p, lib.c
    G, m = rmat(rng, p.K, p.N, k), rmono(rng, p.N, k)
    r, g, mb = lib.gen(), lib.gen(G), lib.mono(m)
    c.generator_monomial_mul(r.p, g.p, mb.p)
    return first(differ(lib.gen_get(r), O.apply_mono(G, m), 'product'), guards(r, g, mb),
                 differ(lib.gen_get(g), G, 'operand'))


# ------------------------------------------------------------------ C08
def rref_input(rng, p, k):
    G = rng.integers(0, 127, (p.K, p.N))
    m = k % 14
    if m == 1:      # first columns dependent
        G[:, :p.K] = G[:, :p.K] * (rng.random(p.K) < 0.7)[None, :]
    elif m == 2:    # rank deficient
        i, j = rng.choice(p.K, 2, replace=False)
        G[i] = G[j] * int(rng.integers(1, 127)) % 127
    elif m == 3:    # sparse
        G = G * (rng.random(G.shape) < 0.03)
    elif m == 4:    # duplicated columns
        a = rng.permutation(p.N)
        G[:, a[:p.K]] = G[:, a[p.K:2 * p.K]]
    elif m == 5:    # zero row
        G[int(rng.integers(0, p.K))] = 0
    elif m == 6:    # already systematic at random positions
        G, _, _ = O.rref(G)
        G = G[:, rng.permutation(p.N)]
    elif m == 7:    # all ones-ish and extreme entries
        G = rng.integers(125, 127, (p.K, p.N))
    elif m == 8:    # identity at the end
        G[:, :p.N - p.K] = 0
        G[:, p.N - p.K:] = np.eye(p.K, dtype=np.int64)[rng.permutation(p.K)] * rng.integers(1, 127, p.K)
    elif m >= 9:    # reduced form with chosen pivots, rows mixed or only permuted
        G, piv = rref_rand(rng, p, k // 14)
        if m >= 12:
            G = np.where(rng.random(G.shape) < 0.9, G * np.isin(np.arange(p.N), piv)[None, :], G)
        for j, c in enumerate(piv):
            G[:, c] = 0
            G[j, c] = 1
            G[j, :c] = 0
        if m in (10, 11):
            L = np.tril(rng.integers(0, 127, (p.K, p.K)), -1) + np.diag(rng.integers(1, 127, p.K))
            G = L @ G % 127
        if m in (9, 10, 13):
            G = G[rng.permutation(p.K)]
        if m == 11:
            i, j = int(rng.integers(0, p.K)), int(rng.integers(0, p.K))
            G[[i, j]] = G[[j, i]]
        if m == 12:
            G = G * rng.integers(1, 127, p.K)[:, None] % 127
    return G


def row_reduce(lib, rng, k):
    p, c = lib.p, lib.c
    G = rref_input(rng, p, k)
    b = lib.gen(G)
    f = Buf(p.N, 0)
    r = c.generator_RREF(b.p, f.p)
    E, piv, ok = O.rref(G)
    if bool(r) != ok:
        return f'returned {r} for a matrix of rank {len(piv)}'
    if not ok:
        return guards(b, f)
    fl = np.zeros(p.N, int)
    fl[piv] = 1
    return first(differ(lib.gen_get(b), E, 'reduced matrix'), differ((f.arr != 0).astype(int), fl, 'pivot flags'), guards(b, f))


# ------------------------------------------------------------------ C09
def rref_rand(rng, p, k):
    m = k % 4
    piv = sorted(int(x) for x in rng.permutation(p.N)[:p.K]) if m else list(range(p.K))
    if m == 3:
        piv = list(range(p.N - p.K, p.N))
    q = (k // 4) % 6
    if m and q == 1:        # the first K but for one or two
        piv = set(range(p.K)) - {int(rng.integers(0, p.K)), int(rng.integers(0, p.K))}
        while len(piv) < p.K:
            piv.add(int(rng.integers(0, p.N)))
        piv = sorted(piv)
    elif m and q == 2:      # every other column
        piv = [2 * i + int(rng.integers(0, 2)) for i in range(p.K)]
    elif m and q == 3:      # a block somewhere, and the ends
        a = int(rng.integers(0, p.N - p.K + 1))
        piv = sorted((set(range(a, a + p.K)) - {a, a + p.K - 1}) | {0, p.N - 1})
        while len(piv) < p.K:
            piv = sorted(set(piv) | {int(rng.integers(0, p.N))})
        piv = piv[:p.K]
    elif m and q == 4:      # the last K but for one
        piv = set(range(p.N - p.K, p.N)) - {int(rng.integers(p.N - p.K, p.N))}
        while len(piv) < p.K:
            piv.add(int(rng.integers(0, p.N)))
        piv = sorted(piv)
    G = rng.integers(0, 127, (p.K, p.N)) if m != 2 else rng.integers(125, 127, (p.K, p.N))
    G[:, piv] = np.eye(p.K, dtype=np.int64)
    return G, piv


def rref_codec(lib, rng, k):
    p, c = lib.p, lib.c
    G, piv = rref_rand(rng, p, k)
    b = lib.gen(G)
    f = Buf(p.N, 0)
    f.arr[piv] = 1
    o1, o2 = Buf(p.RB, 0), Buf(p.RB, 0xff)
    c.compress_rref(o1.p, b.p, f.p)
    c.compress_rref(o2.p, b.p, f.p)
    e = O.rref_encode(p, G, piv)
    x = first(guards(o1, o2, b, f), None if o1.bytes()[:len(e)] == e else 'encoding differs from the specification',
              None if o1.bytes()[:len(e)] == o2.bytes()[:len(e)] else 'encoding depends on previous buffer contents')
    if x:
        return x
    d = lib.gen()
    c.expand_to_rref(d.p, o1.p)
    x = first(differ(lib.gen_get(d), G, 'decoded matrix'), guards(d, o1))
    if x:
        return x
    # malformed strings
    raw = bytearray(e)
    m = k % 5
    if m == 0:
        raw[int(rng.integers(0, (p.N + 7) // 8))] ^= 1 << int(rng.integers(0, 8))
    elif m == 1:
        raw = bytearray(rstream(lib, rng, p.RB))
    elif m == 2:
        q = int(rng.integers(0, p.K * (p.N - p.K)))
        if k % 10 == 2:
            q = p.K * (p.N - p.K) - 1
        o = 8 * ((p.N + 7) // 8) + 7 * q
        for t in range(o, o + 7):
            raw[t // 8] |= 1 << (t % 8)
    elif m == 3:
        raw[:] = b'\xff' * len(raw)
    else:
        raw[:] = b'\0' * len(raw)
    d, rb = lib.gen(), Buf(p.RB)
    rb.arr[:] = 0
    rb.arr[:len(raw)] = raw
    r = c.expand_to_rref(d.p, rb.p)
    E, pv = O.rref_decode(p, bytes(raw))
    if E is None:
        return first(guards(d, rb), None if r == 0 else f'malformed matrix bytes accepted (pivots {len(pv)})')
    return first(guards(d, rb), None if r != 0 else 'well-formed matrix bytes rejected', differ(lib.gen_get(d), E, 'decoded matrix'))


# ------------------------------------------------------------------ C10
def compact(lib, rng, k):
    p, c = lib.p, lib.c
    G, piv = rref_rand(rng, p, k)
    np_ = [j for j in range(p.N) if j not in set(piv)]
    b, f = lib.gen(G), Buf(p.N, 0)
    f.arr[piv] = 1
    r = lib.rref()
    c.generator_rref_compact(r.p, b.p, f.p)
    x = first(differ(lib.rref_get(r), G[:, np_], 'compact columns'), differ(lib.rref_pos(r), np_, 'compact positions'), guards(r, b, f))
    if x:
        return x
    d = lib.gen()
    c.generator_rref_expand(d.p, r.p)
    return first(differ(lib.gen_get(d), G, 're-expanded matrix'), guards(d, r))


# ------------------------------------------------------------------ C11 / C12
def minimize(lib, rng, k):
    p, c = lib.p, lib.c
    G = rmat(rng, p.K, p.N, k)
    if k % 2:
        G[:int(rng.integers(0, p.K + 1)), :] = 0
    V0 = rng.integers(0, 127, (p.K, p.N - p.K))
    v, g = lib.nis(V0), lib.gen(G)
    s, d = int(rng.integers(0, p.N)), int(rng.integers(0, p.N - p.K))
    if k % 5 == 0:
        s, d = p.N - 1, p.N - p.K - 1
    if k % 3 == 1:          # one chosen column: where it starts, with what, and what follows
        f = [int(rng.integers(0, p.K)), 0, p.K - 1, p.K - 2][(k // 3) % 4]
        G[:, s] = [0, rng.integers(0, 127, p.K), rng.integers(0, 2, p.K)][(k // 12) % 3]
        G[:f, s] = 0
        G[f, s] = [1, 126, 2, int(rng.integers(1, 127))][(k // 36) % 4]
        g2 = G[:, (s + 1) % p.N]
        g2[:] = g2 * 5 % 127
        v, g = lib.nis(V0), lib.gen(G)
    T = {'1': ctypes.c_uint8}.get(p.cat, ctypes.c_uint16)
    c.lex_minimize(v.p, T(d), g.p, T(s))
    E = V0.copy()
    E[:, d] = O.normalize_col(G[:, s])
    return first(differ(lib.nis_get(v), E, 'normalised column'), guards(v, g))


def sort_cols(lib, rng, k):
    p, c = lib.p, lib.c
    n = p.N - p.K
    m = k % 13
    V = rng.integers(0, 127, (p.K, n))
    if m == 1:
        V[:] = 5
    elif m == 2:
        V[:-1] = V[:-1, :1]
    elif m == 3:
        V = V[:, rng.integers(0, 4, n)]
    elif m == 4:
        V = V[:, np.lexsort(V[::-1])]
    elif m == 5:
        V = V[:, np.lexsort(V[::-1])[::-1]]
    elif m == 6:
        V = rng.integers(0, 2, (p.K, n))
    elif m == 7:            # sorted but for one exchange
        V = V[:, np.lexsort(V[::-1])]
        a = rng.integers(0, n, 2)
        V[:, a] = V[:, a[::-1]]
    elif m == 8:            # organ pipe
        V = V[:, np.lexsort(V[::-1])]
        V = np.concatenate([V[:, ::2], V[:, 1::2][:, ::-1]], axis=1)
    elif m == 9:            # columns that differ in one row only
        V[:] = rng.integers(0, 127, (p.K, 1))
        V[int(rng.integers(0, p.K))] = rng.integers(0, 127, n)
    elif m == 10:           # extremes
        V = 126 * rng.integers(0, 2, (p.K, n))
        V[:int(rng.integers(0, p.K))] = 0
    elif m == 11:           # one small or one large column among equal ones
        V[:] = 60
        V[int(rng.integers(0, p.K)), int(rng.integers(0, n))] += [-1, 1][k // 13 % 2]
    elif m == 12:           # interleaved runs
        V = V[:, np.lexsort(V[::-1])]
        V = V[:, np.argsort(np.arange(n) % int(rng.integers(2, 9)), kind='stable')]
    v = lib.nis(V)
    c.lex_sort_cols(v.p)
    return first(differ(lib.nis_get(v), V[:, np.lexsort(V[::-1])], 'sorted columns'), guards(v))


# ------------------------------------------------------------------ C13
def commit(lib, rng, k):
    p, c = lib.p, lib.c
    G = rng.integers(0, 127, (p.K, p.N))
    G[:, :p.K] = np.eye(p.K, dtype=np.int64)
    if k % 3 == 1:
        G[:, p.K:p.K + p.K // 2] = 0
    if k % 6 == 2:          # equal, proportional, zero and unit columns
        d = rng.permutation(np.arange(p.K, p.N))[:4]
        G[:, d[0]] = G[:, d[1]]
        G[:, d[2]] = G[:, d[1]] * int(rng.integers(1, 127)) % 127
        G[:, d[3]] = 0
        G[int(rng.integers(0, p.K)), d[3]] = int(rng.integers(0, 127))
    m = rmono(rng, p.N, k)
    R, piv, ok = O.rref(O.apply_mono(G, m))
    v, a, g, mb = lib.nis(), lib.act(), lib.gen(G), lib.mono(m)
    c.prepare_digest_input(v.p, a.p, g.p, mb.p)
    V, A = O.prepare_digest(p, G, m)
    ga = lib.act_get(a)
    x = first(differ(lib.nis_get(v), V, 'commitment object'), differ(ga[0], A[0], 'action coefficients'),
              differ(ga[1], A[1], 'action positions'), guards(v, a, g, mb))
    if x:
        return x
    act = (rng.integers(1, 127, p.K), rng.permutation(p.N)[:p.K]) if k % 2 else A
    if k % 4 == 3:
        act = (act[0], np.sort(act[1])[::-1].copy())
    if k % 8 == 1:
        act = (act[0], np.sort(act[1]))
    if k % 16 == 5:
        act = (act[0], (np.arange(p.K) + [0, p.N - p.K, int(rng.integers(0, p.N))][(k // 16) % 3]) % p.N)
    if k % 16 == 13:
        act = (np.ones(p.K, dtype=np.int64), np.arange(p.K) * 2)
    r, ab = lib.gen(), lib.act(act)
    c.apply_action_to_G(r.p, g.p, ab.p)
    return first(differ(lib.gen_get(r), O.action_apply(p, G, act), 'applied action'), guards(r, g, ab))


# ------------------------------------------------------------------ C14 / C15
def hidden_set(rng, p, k):
    x = np.zeros(p.T, dtype=np.uint8)
    m = k % 8
    if m < 4:
        x[rng.permutation(p.T)[:p.W]] = 1
    elif m == 4:
        x[[0, p.T - 1, int(rng.integers(0, p.T))][(k // 8) % 3]] = 1
    elif m == 5:
        x[:] = 1
    elif m == 6:
        x[rng.integers(0, p.T, int(rng.integers(1, p.T)))] = 1
    else:
        # evenly spread: the longest paths
        x[(np.arange(p.W) * p.T // p.W)] = 1
    return x


def seed_path(lib, rng, k):
    p, c = lib.p, lib.c
    root, salt = rstream(lib, rng, p.S), rstream(lib, rng, p.H)
    x = hidden_set(rng, p, k)
    t = Buf(p.NODES * p.S)
    c.generate_seed_tree_from_root(t.p, inp(root).p, inp(salt).p)
    T = O.tree(p, root, salt)
    e = differ(t.arr, np.frombuffer(b''.join(T), dtype=np.uint8), 'seed tree')
    if e or guards(t):
        return e or guards(t)
    nodes = O.path_nodes(p, x)
    st = Buf(max(1, len(nodes) * p.S))
    if k % 8 < 4 or k % 8 == 7:
        if len(nodes) * p.S > p.MAXB:
            return 'specification: path does not fit the reserved space'
        st = Buf(p.MAXB)
    n = c.seed_tree_path(t.p, inp(x.tobytes()).p, st.p)
    if n != len(nodes):
        return f'published {n} seeds instead of {len(nodes)}'
    want = b''.join(T[i] for i in nodes)
    if st.bytes()[:len(want)] != want or guards(st):
        return guards(st) or 'published seeds differ from the specification'
    r = Buf(p.NODES * p.S, 0)
    n2 = c.rebuild_seed_tree_leaves(r.p, inp(x.tobytes()).p, st.p, inp(salt).p)
    if n2 != n:
        return f'verifier used {n2} seeds, signer published {n}'
    for i in range(p.T):
        if not x[i]:
            j = p.LEAVES - 1 + i
            if r.bytes()[j * p.S:(j + 1) * p.S] != T[j]:
                return f'leaf {i} not regenerated'
    return guards(r)


_worst = {}


def worst_hidden(rng, p):
    """a choice of exactly W hidden rounds with the most published nodes"""
    def best(n, real):
        key = (p.T, p.W, n, real)
        if key not in _worst:
            if n == 1:
                _worst[key] = {0: (0, None), 1: (0, None)} if real else {0: (0, None)}
            else:
                m = n // 2
                a, b = best(m, min(real, m)), best(m, max(0, real - m))
                r = {0: (0, [])}
                for x in a:
                    for y in b:
                        if 0 < x + y <= p.W:
                            t = a[x][0] + b[y][0] + (x == 0) + (y == 0)
                            if x + y not in r or t > r[x + y][0]:
                                r[x + y] = (t, [(x, y)])
                            elif t == r[x + y][0]:
                                r[x + y][1].append((x, y))
                _worst[key] = r
        return _worst[key]
    h = np.zeros(p.T, dtype=np.uint8)

    def pick(lo, n, real, w):
        if w == 0:
            return
        if n == 1:
            h[lo] = 1
            return
        m = n // 2
        o = best(n, real)[w][1]
        x, y = o[int(rng.integers(0, len(o)))]
        pick(lo, m, min(real, m), x)
        pick(lo + m, m, max(0, real - m), y)
    pick(0, p.LEAVES, p.T, p.W)
    return h


def worst_path(lib, rng, k):
    p, c = lib.p, lib.c
    x = worst_hidden(rng, p)
    assert x.sum() == p.W
    t = Buf(p.NODES * p.S)
    t.arr[:] = rng.integers(0, 256, p.NODES * p.S)
    st = Buf(p.NODES * p.S)
    n = c.seed_tree_path(t.p, inp(x.tobytes()).p, st.p)
    room = lib.sz[7] - lib.sz[18] - 1
    if n * p.S > room:
        return f'{n} published seeds of {p.S} bytes do not fit the {room} reserved bytes; hidden rounds {np.flatnonzero(x).tolist()}'
    nodes = O.path_nodes(p, x)
    T = [t.bytes()[i * p.S:(i + 1) * p.S] for i in range(p.NODES)]
    if st.bytes()[:n * p.S] != b''.join(T[i] for i in nodes):
        return f'published seeds are not those of the topmost disclosed nodes; hidden rounds {np.flatnonzero(x).tolist()}'
    return guards(t, st)


# ------------------------------------------------------------------ C16
def challenge(lib, rng, k):
    p, c = lib.p, lib.c
    d = rstream(lib, rng, p.H)
    if k % 16 == 0:
        d = bytes([k & 255]) * p.H
    x = Buf(p.T, 0)
    c.expand_digest_to_fixed_weight(x.p, inp(d).p)
    return first(differ(x.arr, O.fixed_weight(p, d), 'challenge'), guards(x))


# ------------------------------------------------------------------ C17 / C18
ALGS = {'shake128': (hashlib.shake_128, 0, 168), 'shake256': (hashlib.shake_256, 0, 136),
        'sha3_256': (hashlib.sha3_256, 32, 136), 'sha3_384': (hashlib.sha3_384, 48, 104), 'sha3_512': (hashlib.sha3_512, 64, 72)}


def chunks(rng, n, r):
    o = 0
    while o < n:
        m = int(rng.integers(0, 6))
        s = [1, r - 1, r, r + 1, int(rng.integers(0, 2 * r + 2)), n - o][m]
        s = min(s, n - o)
        yield o, s
        o += s


def hashing(lib, rng, k):
    p, c = lib.p, lib.c
    names = list(ALGS)
    a = names[k % 5]
    alg, dl, rate = ALGS[a]
    n = [0, 1, rate - 1, rate, rate + 1, 2 * rate - 1, 2 * rate][(k // 5) % 7] if k < 70 else int(rng.integers(0, 4 * rate))
    if k % 40 == 39:
        n = [255, 256, 257, 65535, 65536, 65537, 100000, 1 << 20][(k // 40) % 8] + int(rng.integers(0, 2)) * rate
    msg = rstream(lib, rng, n) if n else b''
    ctx = Buf(1024)
    z = ctypes.c_size_t
    mb = inp(msg)
    if dl:
        o = Buf(dl)
        getattr(c, a)(o.p, mb.p, z(n))
        if o.bytes() != alg(msg).digest() or guards(o):
            return f'{a} of {n} bytes is wrong'
        getattr(c, a + '_inc_init')(ctx.p)
        for off, s in chunks(rng, n, rate):
            getattr(c, a + '_inc_absorb')(ctx.p, vp(mb.p.value + off), z(s))
        o = Buf(dl)
        getattr(c, a + '_inc_finalize')(o.p, ctx.p)
        if o.bytes() != alg(msg).digest() or guards(o):
            return f'incremental {a} of {n} bytes is wrong'
        return None
    L = ([256, 65536, 70000, 300000][(k // 40) % 4] + int(rng.integers(0, 3)) if k % 40 == 38 else int(rng.integers(1, 5 * rate))) if k >= 70 or k % 40 == 38 else [1, rate - 1, rate, rate + 1, 2 * rate, 2 * rate + 1, 3 * rate][(k // 5) % 7]
    o = Buf(L)
    getattr(c, a)(o.p, z(L), mb.p, z(n))
    want = alg(msg).digest(L)
    if o.bytes() != want or guards(o):
        return f'{a} of {n} bytes to {L} bytes is wrong'
    getattr(c, a + '_inc_init')(ctx.p)
    for off, s in chunks(rng, n, rate):
        getattr(c, a + '_inc_absorb')(ctx.p, vp(mb.p.value + off), z(s))
    getattr(c, a + '_inc_finalize')(ctx.p)
    o = Buf(L)
    for off, s in chunks(rng, L, rate):
        getattr(c, a + '_inc_squeeze')(vp(o.p.value + off), z(s), ctx.p)
    if o.bytes() != want or guards(o):
        return f'incremental {a} of {n} bytes to {L} bytes is wrong'
    return None


RC = None


def keccak_ref(A):
    global RC
    M = (1 << 64) - 1
    if RC is None:
        RC = []
        r = 1
        for i in range(24):
            v = 0
            for j in range(7):
                if r & 1:
                    v |= 1 << ((1 << j) - 1)
                r = (r << 1) ^ (0x171 if r & 0x80 else 0)
                r &= 0xff
            RC.append(v)
    rot = lambda x, n: ((x << n) | (x >> (64 - n))) & M if n else x
    for rnd in range(24):
        C = [A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20] for x in range(5)]
        D = [C[(x - 1) % 5] ^ rot(C[(x + 1) % 5], 1) for x in range(5)]
        A = [A[i] ^ D[i % 5] for i in range(25)]
        B = [0] * 25
        x, y = 1, 0
        B[0] = A[0]
        for t in range(24):
            B[y + 5 * ((2 * x + 3 * y) % 5)] = rot(A[x + 5 * y], ((t + 1) * (t + 2) // 2) % 64)
            x, y = y, (2 * x + 3 * y) % 5
        A = [B[i] ^ ((~B[(i // 5) * 5 + (i + 1) % 5]) & M & B[(i // 5) * 5 + (i + 2) % 5]) for i in range(25)]
        A[0] ^= RC[rnd]
    return A


def keccak(lib, rng, k):
    c = lib.c
    st = [int(x) for x in rng.integers(0, 1 << 63, 25) * 2 + rng.integers(0, 2, 25)]
    if k == 0:
        st = [0] * 25
    if 1 <= k <= 25:
        st = [0] * 25
        st[k - 1] = 1 << int(rng.integers(0, 64))
    b = Buf(200)
    b.arr[:] = np.frombuffer(b''.join((x & (2**64 - 1)).to_bytes(8, 'little') for x in st), dtype=np.uint8)
    st = [x & (2**64 - 1) for x in st]
    c.KeccakF1600_StatePermute(b.p)
    want = b''.join(x.to_bytes(8, 'little') for x in keccak_ref(st))
    if b.bytes() != want or guards(b):
        return 'permutation differs from Keccak-f[1600]'
    off = int(rng.integers(0, 200))
    n = int(rng.integers(0, 200 - off + 1))
    data = rstream(lib, rng, n) if n else b''
    c.KeccakF1600_StateXORBytes(b.p, inp(data).p, ctypes.c_uint(off), ctypes.c_uint(n))
    w = bytearray(want)
    for i in range(n):
        w[off + i] ^= data[i]
    if b.bytes() != bytes(w):
        return f'XOR of {n} bytes at {off} is wrong'
    o = Buf(max(1, n))
    c.KeccakF1600_StateExtractBytes(b.p, o.p, ctypes.c_uint(off), ctypes.c_uint(n))
    if o.bytes()[:n] != bytes(w)[off:off + n] or guards(o):
        return f'extraction of {n} bytes at {off} is wrong'
    return None


# ------------------------------------------------------------------ whole protocol
def rnd_seed(lib, rng):
    d = rstream(lib, rng, 48)
    lib.c.vx_seed_platform(inp(d).p, ctypes.c_uint32(48))
    return d


def keygen(lib, rng, k):
    p, c = lib.p, lib.c
    d = rnd_seed(lib, rng)
    pk, sk = key_buffers(lib)
    c.crypto_sign_keypair(pk.p, sk.p)
    epk, esk = O.keygen(p, p.xof(d))
    return first(guards(pk, sk), None if sk.bytes()[:len(esk)] == esk else 'secret key differs from the specification',
                 None if pk.bytes()[:len(epk)] == epk else 'public key differs from the specification')


def key_buffers(lib):
    """no more room than a caller provides who goes by api.h"""
    z = lib.sz
    return Buf(min(z[29] or z[5], z[5])), Buf(min(z[30] or z[6], z[6]))


def keys(lib, rng):
    d = rnd_seed(lib, rng)
    pk, sk = key_buffers(lib)
    lib.c.crypto_sign_keypair(pk.p, sk.p)
    return pk, sk


def fixed(lib, tag, bs):
    """a buffer that stays where it is from case to case: what was computed for other contents at this address must not be used"""
    t = lib.__dict__.setdefault('_fixed', {})
    b = t.get((tag, len(bs)))
    if b is None:
        b = t[(tag, len(bs))] = Buf(max(1, len(bs)))
    b.arr[:len(bs)] = np.frombuffer(bytes(bs), dtype=np.uint8)
    return b


def do_sign(lib, sk, m, seed):
    p, c = lib.p, lib.c
    c.vx_seed_platform(inp(seed).p, ctypes.c_uint32(len(seed)))
    sm = Buf(len(m) + (lib.sz[28] or p.siglen(p.MAXSEEDS)))       # what a caller provides: CRYPTO_BYTES beyond the message
    n = ctypes.c_ulonglong(0)
    c.crypto_sign(sm.p, ctypes.byref(n), inp(m).p, ctypes.c_ulonglong(len(m)), fixed(lib, 'sk', sk.bytes()).p)
    return sm, n.value


def do_open(lib, pk, sm, n=None):
    c = lib.c
    n = len(sm) if n is None else n
    m = Buf(max(1, len(sm)))
    ml = ctypes.c_ulonglong(0xdeadbeef)
    b = inp(sm)
    r = c.crypto_sign_open(m.p, ctypes.byref(ml), b.p, ctypes.c_ulonglong(n), fixed(lib, 'pk', pk.bytes()).p)
    return r, ml.value, m


def real_prep(lib):
    """commitment objects from the code under test itself (compared with the specification by `commit`): makes the specification's
    signer fast enough to be run on many inputs"""
    last = {}

    def prep(p, G, m):
        if last.get('G') is not G:
            last.update(G=G, g=lib.gen(G))
        v, a, mb = lib.nis(), lib.act(), lib.mono(m)
        lib.c.prepare_digest_input(v.p, a.p, last['g'].p, mb.p)
        return np.ascontiguousarray(lib.nis_get(v)).astype(np.uint8), lib.act_get(a)
    return prep


def sign_oracle(lib, rng, k):
    """signature bytes equal the specification's, and the signature opens"""
    p = lib.p
    pk, sk = keys(lib, rng)
    m = rstream(lib, rng, [1, 0, 33, 200, 136, 137, 256, 65536, 70001][k % 9]) if k % 9 != 1 else b''
    d = rstream(lib, rng, 48)
    other = inp(sk.bytes())
    other.arr[int(rng.integers(0, p.SK + p.S))] ^= 1 + int(rng.integers(0, 255))
    do_sign(lib, other, m, d)                   # a related key first: nothing of it may be left
    sm, n = do_sign(lib, sk, m, d)
    e = O.sign(p, sk.bytes()[:p.SK + p.S], m, p.xof(d), None if k % 6 == 5 and p.T < 260 else real_prep(lib))
    if guards(sm):
        return guards(sm)
    if n != len(m) + len(e) or sm.bytes()[:n] != m + e:
        return f'signed message differs from the specification (length {n}, expected {len(m) + len(e)})'
    if not (sm.arr[len(m) + p.siglen(p.MAXSEEDS):] == 0xA5).all():
        return 'bytes written beyond the maximum signature length'
    r, ml, mb = do_open(lib, pk, sm.bytes()[:n])
    if r != 0 or ml != len(m) or mb.bytes()[:ml] != m:
        return f'honest signature does not open (ret {r}, length {ml})'
    return guards(mb)


def roundtrip(lib, rng, k):
    """honest signatures open; changed ones do not"""
    p = lib.p
    pk, sk = keys(lib, rng)
    m = rstream(lib, rng, int(rng.integers(1, 300)) if k % 7 != 3 else [255, 256, 65535, 65536, 70001][(k // 7) % 5]) if k else b''
    sm, n = do_sign(lib, sk, m, rstream(lib, rng, 48))
    s = sm.bytes()[:n]
    if n != len(m) + p.siglen(s[-1]) or s[:len(m)] != m or guards(sm):
        return 'signed message is not message followed by a signature of the stated length'
    r, ml, mb = do_open(lib, pk, s)
    if r != 0 or ml != len(m) or mb.bytes()[:ml] != m or guards(mb):
        return f'honest signature does not open (ret {r}, length {ml})'
    return None


def tamper(lib, rng, k):
    """verdict on modified signatures equals the specification's verdict"""
    p = lib.p
    st = lib.__dict__.setdefault('_tamper', {})
    if not st:
        pk, sk = keys(lib, np.random.default_rng(7))
        m = bytes(range(40))
        sm, n = do_sign(lib, sk, m, b'x' * 48)
        st.update(pk=pk, s=sm.bytes()[:n], m=m, sk=sk)
    s, m, pk = bytearray(st['s']), st['m'], st['pk']
    L = len(m)
    reg = {'message': (0, L), 'salt': (L, p.H), 'action': (L + p.H, p.W * p.AB), 'digest': (L + p.H + p.W * p.AB, p.H),
           'seeds': (L + 2 * p.H + p.W * p.AB, s[-1] * p.S)}
    names = list(reg)
    nm = names[k % 5]
    o, n = reg[nm]
    j = k // 5
    if nm in ('digest', 'salt', 'message') and j < 2 * n:
        # every byte of the region is covered first
        pos = o + j % n
        pos = o + n - 1 - (j % n) if j % 2 else pos
    else:
        pos = o + int(rng.integers(0, n))
    bit = 1 << int(rng.integers(0, 8))
    s[pos] ^= bit
    r, ml, mb = do_open(lib, pk, bytes(s))
    if r == 0:
        # the specification decides whether the change was immaterial (padding bits)
        if O.sign_open(p, bytes(s), pk.bytes()[:p.S + (p.NK - 1) * p.RB])[0] != 0:
            return f'signature with {nm} byte {pos - o} changed by {bit:#x} is accepted'
    return guards(mb)


def programmed(lib, rng, k):
    """verdict of the verifier for a chosen challenge and the digest it recomputes itself (the hash is treated as
       an oracle that happens to agree), with well-formed and malformed keys and responses"""
    p, c = lib.p, lib.c
    if not lib.has('vx_verify'):
        return None
    st = lib.__dict__.setdefault('_prog', {})
    if not st:
        st['pk'] = keys(lib, np.random.default_rng(5))[0].bytes()
    pk = bytearray(st['pk'])
    hid = hidden_set(rng, p, k // 8)
    pos = [i for i in range(p.T) if hid[i]][:p.W]
    free = [i for i in range(p.T) if i not in set(pos)]
    pos = sorted(pos + list(rng.permutation(free)[:p.W - len(pos)]))
    x = [0] * p.T
    for i in pos:
        x[int(i)] = int(rng.integers(1, p.NK))
    salt, root, m = rstream(lib, rng, p.H), rstream(lib, rng, p.S), rstream(lib, rng, 1 + k % 300)
    t = O.tree(p, root, salt)
    seeds = O.path(p, t, x)
    kind = k % 8
    acts = []
    for j in range(p.W):
        co, pe = rng.integers(1, 127, p.K), rng.permutation(p.N)[:p.K]
        acts.append([co, pe.astype(np.int64)])
    bad = [0, p.W - 1, int(rng.integers(0, p.W))][(k // 8) % 3]
    at = [0, p.K - 1, int(rng.integers(0, p.K))][(k // 24) % 3]
    fb = (p.N + 7) // 8
    used = x[[i for i in range(p.T) if x[i]][bad]] - 1
    o = p.S + used * p.RB
    what = 'well-formed responses'
    if kind == 1:
        acts[bad][0][at], what = 0, f'coefficient 0 at {at} of response {bad}'
    elif kind == 2:
        acts[bad][0][at], what = 127, f'coefficient 127 at {at} of response {bad}'
    elif kind == 3:
        acts[bad][1][at], what = acts[bad][1][(at + 1 + k % (p.K - 1)) % p.K], f'repeated position at {at} of response {bad}'
    elif kind == 4:
        v = int(rng.integers(p.N, 1 << p.N.bit_length())) if k % 16 < 8 else p.N
        acts[bad][1][at], what = v, f'position {v} at {at} of response {bad}'
    elif kind == 5:
        j = int(rng.integers(0, p.N))
        pk[o + j // 8] ^= 1 << (j % 8)
        what = f'public key {used} with pivot flag {j} changed'
    elif kind == 6:
        pk[o + fb + int(rng.integers(0, 3))] = 255
        pk[o + fb + 1] = pk[o + fb] = 255
        what = f'public key {used} with a non-canonical entry'
    sig = Buf(lib.sz[7], 0)
    sig.arr[:p.H] = np.frombuffer(salt, dtype=np.uint8)
    body = b''.join(O.action_encode(p, a)[0] for a in acts)
    sig.arr[lib.sz[16]:lib.sz[16] + len(body)] = np.frombuffer(body, dtype=np.uint8)
    store = b''.join(seeds)
    sig.arr[lib.sz[18]:lib.sz[18] + len(store)] = np.frombuffer(store, dtype=np.uint8)
    flip = int(rng.integers(0, 8 * p.H)) if kind == 7 else -1
    if flip >= 0:
        what = f'digest bit {flip} changed'
    d, seen = Buf(p.H), ctypes.c_int(0)
    r = c.vx_verify(fixed(lib, 'pk', pk).p, inp(m).p, ctypes.c_uint64(len(m)), sig.p, inp(bytes(x)).p, d.p, ctypes.byref(seen), ctypes.c_int(flip))
    want = 1 if kind == 0 else 0
    if r != want:
        return f'verdict {r} instead of {want}: {what}'
    if kind == 0 and p.cat == '1' and k % 32 == 24:
        e = O.verify_digest(p, bytes(pk), m, salt, body, store, x, real_prep(lib))
        if d.bytes() != e:
            return 'recomputed digest differs from the specification'
    return guards(sig, d)


def open_fuzz(lib, rng, k):
    """arbitrary strings: verdict 0/-1, nothing out of bounds (run under sanitizers)"""
    p = lib.p
    st = lib.__dict__.setdefault('_fuzz', {})
    if not st:
        pk, sk = keys(lib, np.random.default_rng(11))
        m = bytes(range(20))
        sm, n = do_sign(lib, sk, m, b'y' * 48)
        st.update(pk=pk, s=sm.bytes()[:n])
    s, pk = bytearray(st['s']), st['pk'].bytes()
    m = k % 10
    if m == 0:
        n = [0, 1, 2, p.H, p.siglen(0) - 1, p.siglen(0), p.siglen(p.MAXSEEDS), 5000][(k // 10) % 8]
        s = bytearray(rstream(lib, rng, n)) if n else bytearray()
    elif m == 1:
        s = s[:int(rng.integers(0, len(s)))]
    elif m == 2:
        s[-1] = int(rng.integers(0, 256))
    elif m == 3:
        s = s[-int(rng.integers(1, len(s))):]
    elif m == 4:
        s = bytearray(rstream(lib, rng, p.siglen(5)))
        s[-1] = 5
    elif m == 5:
        pk = rstream(lib, rng, len(pk))
    elif m == 6:
        pk = pk[:p.S] + bytes([255]) * (len(pk) - p.S)
    elif m == 7:
        pk = pk[:p.S] + bytes(len(pk) - p.S)
    elif m == 8:
        o = 20 + 2 * p.H + p.W * p.AB
        d = o - p.H
        s[d:o] = rstream(lib, rng, p.H)
    else:
        s[-1] = p.MAXSEEDS if k % 20 == 9 else min(255, p.MAXSEEDS + 1)
        s = bytearray(b'\0' * 300) + s
    b = inp(pk)
    pb = Buf(len(pk))
    pb.arr[:] = np.frombuffer(bytes(pk), dtype=np.uint8)
    # exactly sized heap block so that the sanitizers see over-reads
    libc = ctypes.CDLL(None)
    libc.malloc.restype = vp
    libc.free.argtypes = [vp]
    q = vp(libc.malloc(ctypes.c_size_t(max(1, len(s)))))
    ctypes.memmove(q, bytes(s), len(s))
    mo = Buf(max(1, len(s)))
    ml = ctypes.c_ulonglong(0)
    r = lib.c.crypto_sign_open(mo.p, ctypes.byref(ml), q, ctypes.c_ulonglong(len(s)), pb.p)
    libc.free(q)
    if r not in (0, -1):
        return f'returned {r}'
    if r == 0 and O.sign_open(p, bytes(s), pk[:p.S + (p.NK - 1) * p.RB])[0] != 0:
        return 'accepted a string the specification rejects'
    if r == 0 and ml.value != len(s) - p.siglen(s[-1]):
        return 'message length is wrong'
    return guards(mo, pb)


def open_bytes_hash(lib, rng, k):
    return None


def memcmp_case(lib, rng, k):
    n = 64 if k % 2 else 1 + (k // 2) % 80
    a = rstream(lib, rng, n)
    b = bytearray(a)
    if k % 4:
        b[(k // 4) % n] ^= 1 << int(rng.integers(0, 8))
    r = lib.c.timing_safe_memcmp(inp(a).p, inp(b).p, ctypes.c_uint(n))
    return None if (r == 0) == (a == bytes(b)) else f'comparison verdict {r} is wrong'


def pairs(lib, rng, k):
    """reference and vectorised build: same keys, signatures and verdicts"""
    p = lib.p
    if 'other' not in lib.__dict__:
        from lib import Lib
        so = os.environ.get('VX_SO_OTHER')
        if so is None:
            import tempfile, shutil, atexit
            d = tempfile.mkdtemp(prefix='vpair')
            atexit.register(shutil.rmtree, d, True)
            lib.other = Lib('avx2' if lib.impl == 'ref' else 'ref', p.cat, p.var, workdir=d)
        else:
            lib.other = Lib('avx2' if lib.impl == 'ref' else 'ref', p.cat, p.var, so=so)
    o = lib.other
    d1, d2 = rstream(lib, rng, 48), rstream(lib, rng, 48)
    m = rstream(lib, rng, [0, 1, 135, 136, 137, 300, 5000][k % 7]) if k % 7 else b''
    res = []
    for L in (lib, o):
        L.c.vx_seed_platform(inp(d1).p, ctypes.c_uint32(48))
        pk, sk = Buf(L.sz[5]), Buf(L.sz[6])
        L.c.crypto_sign_keypair(pk.p, sk.p)
        sm, n = do_sign(L, sk, m, d2)
        if guards(pk, sk, sm):
            return guards(pk, sk, sm)
        res.append((pk.bytes()[:p.S + (p.NK - 1) * p.RB], sk.bytes()[:p.SK + p.S], sm.bytes()[:n]))
    a, b = res
    for q, w in enumerate(('public keys', 'secret keys', 'signed messages')):
        if a[q] != b[q]:
            return f'{w} differ between the two builds'
    s = bytearray(a[2])
    if k % 2:
        j = int(rng.integers(0, len(s)))
        s[j] ^= 1 << int(rng.integers(0, 8))
    v = []
    for L in (lib, o):
        r, ml, mb = do_open(L, inp(a[0]), bytes(s))
        if guards(mb):
            return guards(mb)
        v.append((r, ml if r == 0 else None, mb.bytes()[:ml] if r == 0 else None))
    return None if v[0] == v[1] else f'verdicts differ between the two builds: {v[0][0]} and {v[1][0]}'


def drbg(lib, rng, k):
    """the known-answer generator against an independent AES-256 CTR DRBG, over request sequences and counter carries"""
    import aes, build as B
    ls = lib.__dict__.setdefault('_kat', {})
    if not ls:
        d = os.path.dirname(lib.so)
        for nm, src, inc in (('util', f'{B.REPO}/Utilities/KAT_Generation/lib/KAT_NIST_rng.c', f'{B.REPO}/Utilities/KAT_Generation/include'),
                             ('nist', f'{B.libdir(lib.impl)}/nist/KAT_NIST_rng.c', f'{B.libdir(lib.impl)}/nist')):
            so = f'{d}/kat-{lib.impl}-{nm}-{os.getpid()}.so'
            r = subprocess.run(['gcc', '-O2', '-w', '-shared', '-fPIC', '-I', inc, src, '-o', so, '-lcrypto'], capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError(r.stderr[-500:])
            ls[nm] = ctypes.CDLL(so)
    for nm, c in ls.items():
        ent = rstream(lib, rng, 48)
        pers = rstream(lib, rng, 48) if k % 3 == 1 else None
        c.KAT_NIST_randombytes_init(inp(ent).p, inp(pers).p if pers else None, 256)
        ref = aes.Drbg(ent, pers)
        st = (ctypes.c_ubyte * 52).in_dll(c, 'DRBG_ctx')
        if k % 2:
            # a counter whose low bytes are about to overflow
            z = int(rng.integers(1, 17))
            v = bytes(rstream(lib, rng, 16))[:16 - z] + bytes([255] * (z - 1)) + bytes([254 + k // 2 % 2])
            st[32:48] = list(v)
            ref.v = int.from_bytes(v, 'big')
        for n in [int(x) for x in rng.integers(0, 90, 4)] + [k % 50, 16 * (k % 4), 0, 48] + ([255, 256, 4096, 4097][k // 20 % 4:][:1] if k % 20 == 19 else []):
            b = Buf(n if n else 1)
            c.KAT_NIST_randombytes(b.p, ctypes.c_ulonglong(n))
            w = ref.random(n)
            if b.bytes()[:n] != w:
                return f'{nm}: request of {n} bytes differs from the CTR DRBG'
            if bytes(st[:32]) != ref.k or bytes(st[32:48]) != ref.v.to_bytes(16, 'big'):
                return f'{nm}: key or counter after a request of {n} bytes differs from the CTR DRBG'
            m = guards(b)
            if m:
                return m
    return None


CASES = {
    'C01': [field, monomial_mul, mono_ops],
    'C02': [mono_ops], 'C03': [expand], 'C04': [samplers], 'C05': [action_codec], 'C06': [action_valid],
    'C07': [monomial_mul], 'C08': [row_reduce], 'C09': [rref_codec], 'C10': [compact], 'C11': [minimize],
    'C12': [sort_cols], 'C13': [commit], 'C14': [seed_path], 'C15': [worst_path, seed_path], 'C16': [challenge],
    'C17': [hashing], 'C18': [keccak], 'C19': [sign_oracle], 'C20': [programmed, tamper, memcmp_case], 'C21': [open_fuzz],
    'C22': [roundtrip], 'C23': [keygen], 'C24': [roundtrip, commit], 'C25': [pairs], 'C26': [monomial_mul, row_reduce, pairs], 'C28': [drbg],
}
