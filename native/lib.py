"""ctypes binding to the real code of one configuration"""
import ctypes, os, sys, tempfile
import numpy as np
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
import oracle as O

PAD = 4096


class Lib:
    def __init__(self, impl, cat, var, san=False, workdir=None, so=None):
        self.impl, self.p = impl, O.P(cat, var)
        self.name = f'{impl}-{cat}{var[0]}'
        if so is None:
            d = workdir or tempfile.mkdtemp(prefix='vlib')
            so = f'{d}/{self.name}{"-san" if san else ""}.so'
            r, info = B.build(impl, cat, var, so, san)
            if r is None:
                raise RuntimeError(f'build failed: {info}')
            self.opts = info
        self.so = so
        self.c = ctypes.CDLL(so)
        self.c.vx_size.restype = ctypes.c_size_t
        s = self.sz = [self.c.vx_size(i) for i in range(31)]
        self.gs, self.rs, self.vs = s[8], s[9], s[10]
        for f in ('seed_tree_path', 'rebuild_seed_tree_leaves'):
            if hasattr(self.c, f):
                getattr(self.c, f).restype = ctypes.c_uint32

    def has(self, f):
        return hasattr(self.c, f)

    # guarded buffers: n bytes surrounded by a recognisable pattern, 64-aligned
    def buf(self, n, fill=0xA5):
        return Buf(n, fill)

    # ---- matrices
    def gen(self, G=None, fill=0xA5):
        b = Buf(self.sz[0], fill)
        if G is not None:
            a = b.arr.reshape(self.p.K, self.gs)
            a[:, self.p.N:] = 0
            a[:, :self.p.N] = G
        return b

    def gen_get(self, b):
        return b.arr.reshape(self.p.K, self.gs)[:, :self.p.N].astype(np.int64)

    def nis(self, V=None, fill=0xA5):
        b = Buf(self.sz[2], fill)
        if V is not None:
            a = b.arr.reshape(self.p.K, self.vs)
            a[:] = 0
            a[:, :self.p.N - self.p.K] = V
        return b

    def nis_get(self, b):
        return b.arr.reshape(self.p.K, self.vs)[:, :self.p.N - self.p.K].astype(np.int64)

    def rref(self, V=None, pos=None, fill=0xA5):
        b = Buf(self.sz[1], fill)
        if V is not None:
            b.arr[:self.p.K * self.rs].reshape(self.p.K, self.rs)[:, :self.p.N - self.p.K] = V
            self.rref_pos(b)[:] = pos
        return b

    def rref_get(self, b):
        return b.arr[:self.p.K * self.rs].reshape(self.p.K, self.rs)[:, :self.p.N - self.p.K].astype(np.int64)

    def rref_pos(self, b):
        o = self.sz[13]
        n = (self.p.N - self.p.K) * self.sz[27]
        return b.arr[o:o + n].view(self.p.pos)

    # ---- monomials
    def mono(self, m=None, fill=0xA5):
        b = Buf(self.sz[3], fill)
        if m is not None:
            b.arr[:self.p.N] = m[0]
            self._perm(b, self.sz[11], self.p.N)[:] = m[1]
        return b

    def _perm(self, b, off, n):
        return b.arr[off:off + n * self.sz[27]].view(self.p.pos)

    def mono_get(self, b):
        return b.arr[:self.p.N].astype(np.int64), self._perm(b, self.sz[11], self.p.N).astype(np.int64)

    def act(self, a=None, fill=0xA5):
        b = Buf(self.sz[4], fill)
        if a is not None:
            b.arr[:self.p.K] = a[0]
            self._perm(b, self.sz[12], self.p.K)[:] = a[1]
        return b

    def act_get(self, b):
        return b.arr[:self.p.K].astype(np.int64), self._perm(b, self.sz[12], self.p.K).astype(np.int64)


class BP(ctypes.c_void_p):
    """pointer that keeps its buffer alive"""


class Buf:
    """n usable bytes with guard zones on both sides"""

    def __init__(self, n, fill=0xA5):
        raw = np.empty(n + 2 * PAD + 64, dtype=np.uint8)
        off = (-raw.ctypes.data) % 64 + PAD
        raw[:] = 0x5C
        self.raw, self.off, self.n = raw, off, n
        self.arr = raw[off:off + n]
        self.arr[:] = fill
        self.p = BP(raw.ctypes.data + off)
        self.p.keep = raw

    def guard_ok(self):
        return bool((self.raw[:self.off] == 0x5C).all() and (self.raw[self.off + self.n:] == 0x5C).all())

    def bytes(self):
        return self.arr.tobytes()
