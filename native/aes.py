"""AES-256 (FIPS 197) and the CTR DRBG of SP 800-90A (no derivation function), for the bounded cases"""


def _tables():
    p, q = 1, 1
    s = [0] * 256
    while True:
        p = (p ^ (p << 1) ^ (0x1B if p & 0x80 else 0)) & 0xFF
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 0xFF
        if q & 0x80:
            q ^= 0x09
        r = lambda x, k: ((x << k) | (x >> (8 - k))) & 0xFF
        s[p] = q ^ r(q, 1) ^ r(q, 2) ^ r(q, 3) ^ r(q, 4) ^ 0x63
        if p == 1:
            break
    s[0] = 0x63
    return s


S = _tables()
X = lambda a: ((a << 1) ^ (0x1B if a & 0x80 else 0)) & 0xFF


def expand(key):
    w = [list(key[4 * i:4 * i + 4]) for i in range(8)]
    rc = 1
    for i in range(8, 60):
        t = list(w[i - 1])
        if i % 8 == 0:
            t = [S[b] for b in t[1:] + t[:1]]
            t[0] ^= rc
            rc = X(rc)
        elif i % 8 == 4:
            t = [S[b] for b in t]
        w.append([a ^ b for a, b in zip(w[i - 8], t)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(15)]


def encrypt(key, block):
    rk = expand(key)
    s = [a ^ b for a, b in zip(block, rk[0])]
    for r in range(1, 15):
        s = [S[b] for b in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if r < 14:
            n = []
            for c in range(4):
                a = s[4 * c:4 * c + 4]
                t = a[0] ^ a[1] ^ a[2] ^ a[3]
                n += [a[i] ^ t ^ X(a[i] ^ a[(i + 1) % 4]) for i in range(4)]
            s = n
        s = [a ^ b for a, b in zip(s, rk[r])]
    return bytes(s)


class Drbg:
    def __init__(self, entropy, pers=None):
        m = bytes(a ^ b for a, b in zip(entropy, pers)) if pers else entropy
        self.k, self.v, self.c = bytes(32), 0, 0
        self.update(m)
        self.c = 1

    def block(self):
        self.v = (self.v + 1) % (1 << 128)
        return encrypt(self.k, self.v.to_bytes(16, 'big'))

    def update(self, data=None):
        t = b''.join(self.block() for _ in range(3))
        if data:
            t = bytes(a ^ b for a, b in zip(t, data))
        self.k, self.v = t[:32], int.from_bytes(t[32:], 'big')

    def random(self, n):
        o = b''
        while len(o) < n:
            o += self.block()
        self.update()
        self.c += 1
        return o[:n]


if __name__ == '__main__':
    assert encrypt(bytes(range(32)), bytes.fromhex('00112233445566778899aabbccddeeff')).hex() == '8ea2b7ca516745bfeafc49904b496089'
    print('ok')
