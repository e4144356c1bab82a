"""Lane-wise meaning of the vector intrinsics declared in shadow/immintrin.h.

A vector value is an array of bytes (Lanes).  Results of the vectorised field
arithmetic are recognised by a lane lemma: the lane term, abstracted over its (at
most two) operand bytes, is compared by exhaustive evaluation over all canonical
operand values with the exact operation modulo 127; the lane is then replaced by a
function symbol constrained by exactly the lemma that was established."""
import numpy as np
import z3
from vcg import *
from cbuiltins import elem_view
from goto import Ty
import math127 as F

V32 = Ty('vec', w=32, tag='vcg_m256')
V16 = Ty('vec', w=16, tag='vcg_m128')


class Lanes(Arr):
    def __init__(self, bs=None, ws=None, sym=None):
        self.nd, self.w = 1, 8
        self._b, self._w = bs, ws
        self.sym = sym                # lane number (term) -> value, when every lane has the same meaning
        self.rec = None               # where that meaning comes from: ('mem', array, indices, base), ('fn', key, operands)
        self.parts = {}
        self.memo = {}

    def b(self):
        if self._b is None:
            self._b = [trunc(x, 8) if o == 0 else (bv(num(x) >> 8, 8) if is_num(x) else z3.Extract(15, 8, x)) for x in self._w for o in (0, 1)]
        return self._b

    def h(self):
        """16 bit lanes"""
        if self._w is None:
            out = []
            for k in range(0, len(self._b), 2):
                lo, hi = self._b[k], self._b[k + 1]
                if is_num(hi):
                    out.append(zext(lo, 16) if num(hi) == 0 else (bv(num(hi) * 256 + num(lo), 16) if is_num(lo) else z3.Concat(hi, lo)))
                else:
                    out.append(z3.Concat(hi, lo))
            self._w = out
        return self._w

    def read(self, ctx, idxs):
        i = idxs[0]
        if self.sym is not None:
            r = self.memo.get(i.get_id())
            if r is None:
                r = self.memo[i.get_id()] = (self.sym(ctx, i), i)
            return r[0]
        bs = self.b()
        if is_num(i):
            if num(i) >= len(bs):
                return bv(0, 8)
            return tie(ctx, bs[num(i)])
        for x in bs:
            tie(ctx, x)
        r = bs[-1]
        for k in range(len(bs) - 2, -1, -1):
            r = Ite(Eq(i, I(k)), bs[k], r)
        return r


    def part(self, ex, off, n):
        q = self.parts.get(off)
        if q is not None and len(q.b()) == n:
            return q
        k = ('part', off, n)
        r = self.memo.get(k)
        if r is None:
            r = Lanes(self.b()[off:off + n])
            if self.sym is not None:
                r.sym = lambda c, k: self.sym(c, arith('+', k, I(off)))
                if self.rec is not None:
                    if self.rec[0] == 'mem':
                        r.rec = self.rec[:3] + (arith('+', self.rec[3], I(off)),)
                    elif self.rec[0] == 'const':
                        r.rec = self.rec
                register(ex, r)
            self.memo[k] = r
        return r


def splice(ex, cur, w, off, new):
    """vector cur of w bytes with the bytes from off on replaced"""
    old = lanes(ex, cur, w)
    nb = new.b()
    r = Lanes(old.b()[:off] + nb + old.b()[off + len(nb):])
    if len(nb) == w:
        return new
    r.parts = {**{o: q for o, q in old.parts.items() if o + len(q.b()) <= off or o >= off + len(nb)}, off: new}
    h = w // 2
    m = merge(ex, r.parts[0], r.parts[h]) if set(r.parts) == {0, h} and all(len(q.b()) == h for q in r.parts.values()) else None
    if m is not None:
        m.parts = r.parts
        return m
    if old.sym is not None and new.sym is not None:
        def sym(c, k):
            d = arith('-', k, I(off))
            if is_num(k):
                return new.sym(c, d) if off <= num(k) < off + len(nb) else old.sym(c, k)
            return Ite(z3.ULT(d, I(len(nb))), new.sym(c, d), old.sym(c, k))
        r.sym = sym
    return r


def tie(ctx, t):
    for x in leaves_of(t):
        st = [x]
        seen = set()
        while st:
            y = st.pop()
            if y.get_id() in seen:
                continue
            seen.add(y.get_id())
            d = ctx.lanedef.get(y.get_id())
            if d:
                k2 = ('lanedef', y.get_id())
                if k2 not in ctx.inst_done:
                    ctx.inst_done.add(k2)
                    ctx.fact(y == d[0].read(ctx, [I(d[1])]))
            st.extend(y.children())
    return t


def lanes(ex, v, n=32):
    if isinstance(v, Lanes):
        return v
    if isinstance(v, Arr):
        if is_num(v.read(ex.ctx, [I(0)])):
            return Lanes([v.read(ex.ctx, [I(k)]) for k in range(n)])
        # lanes are named; a name is tied to the memory it was loaded from when it is needed
        l = Lanes([fresh(8, 'lane') for k in range(n)], sym=lambda c, k: v.read(c, [k]))
        for k, t in enumerate(l._b):
            ex.ctx.lanedef[t.get_id()] = (v, k, t)
        l.rec = v.rec if isinstance(v, Lam) and hasattr(v, 'rec') else None
        register(ex, l)
        return l
    if hasattr(v, 'leaves') and len(v.leaves) == 1:
        return lanes(ex, list(v.leaves.values())[0], n)
    raise Unsupported('vector operand')


def register(ex, l):
    """remember which vector a lane value was taken from"""
    for k, t in enumerate(l._b):
        ex.lanesrc.setdefault(t.get_id(), []).append((l, k))
    ex.ctx.keep.append((l,))


def common_source(ex, ts):
    """the vector whose lane k is ts[k] for every k"""
    if all(is_num(t) for t in ts):
        return const_lanes(ts) if len({num(t) for t in ts}) == 1 else None
    for l, k in ex.lanesrc.get(ts[0].get_id(), []):
        if k == 0 and len(l._b) == len(ts) and all(z3.eq(x, y) for x, y in zip(l._b, ts)):
            return l
    return None


def commuted(ex, info):
    """as common_source, with the two operands in either order"""
    a, b = info[0][2]
    for la, ka in ex.lanesrc.get(a.get_id(), []):
        for lb, kb in ex.lanesrc.get(b.get_id(), []):
            if ka == kb == 0 and len(la._b) == len(lb._b) == len(info) and all(
                    (z3.eq(i[2][0], la._b[k]) and z3.eq(i[2][1], lb._b[k])) or
                    (z3.eq(i[2][1], la._b[k]) and z3.eq(i[2][0], lb._b[k])) for k, i in enumerate(info)):
                return [la, lb]
    return [None]


def uniform(ex, bs):
    """lanes -> Lanes, with a meaning for a symbolic lane number when all lanes agree"""
    out, info = [], []
    for t in bs:
        v, i = lane(ex, t, True)
        out.append(v)
        info.append(i)
    r = Lanes(out)
    if all(info) and len({i[0] for i in info}) == 1:
        srcs = [common_source(ex, [i[2][q] for i in info]) for q in range(len(info[0][2]))]
        if not all(srcs) and info[0][0] in ('mul', 'add') and len(srcs) == 2:
            srcs = commuted(ex, info)
        if all(srcs):
            fill(r, info[0][0], info[0][3], [i[1] for i in info], srcs)
            register(ex, r)
    elif all(is_num(t) for t in out) and len({num(t) for t in out}) == 1:
        r.sym = lambda c, k: out[0]
        r.rec = ('const', num(out[0]))
    return r


def const_lanes(ts):
    r = Lanes(list(ts), sym=lambda c, k: ts[0])
    r.rec = ('const', num(ts[0]))
    return r


def fill(r, nm, fn, uids, srcs):
    """lane k of r is the recognised function of lane k of srcs"""
    n = len(r._b)
    f = z3.Function('LANEV_' + '_'.join(map(str, uids)), z3.BitVecSort(64), z3.BitVecSort(8), z3.BitVecSort(8), z3.BitVecSort(8))

    def sym(c, k):
        a = srcs[0].sym(c, k)
        b = srcs[1].sym(c, k) if len(srcs) > 1 else a
        v = f(k, a, b)
        c.fact(Implies(And(z3.ULT(a, bv(127, 8)), z3.ULT(b, bv(127, 8)), z3.ULT(k, I(n))), v == fn(c, a, b)))
        return v
    r.sym = sym
    r.rec = ('fn', nm, fn, list(uids), srcs)


def merge(ex, lo, hi):
    """one vector out of two halves whose lanes have the same meaning, or None"""
    if lo.rec is None or hi.rec is None or lo.rec[0] != hi.rec[0]:
        return None
    r = Lanes(lo.b() + hi.b())
    if lo.rec[0] == 'const':
        return const_lanes(r._b) if lo.rec == hi.rec else None
    if lo.rec[0] == 'mem':
        _, v, pre, b = lo.rec
        _, v2, pre2, b2 = hi.rec
        d = z3.simplify(b2 - b)
        if v is not v2 or len(pre) != len(pre2) or not all(z3.eq(x, y) for x, y in zip(pre, pre2)) or not is_num(d) or num(d) != len(lo._b):
            return None
        r.sym, r.rec = (lambda c, k: v.read(c, pre + [arith('+', b, k)])), lo.rec
    else:
        _, nm, fn, uids, srcs = lo.rec
        _, nm2, fn2, uids2, srcs2 = hi.rec
        if nm != nm2 or fn is not fn2 or len(srcs) != len(srcs2):
            return None
        m = [merge(ex, x, y) for x, y in zip(srcs, srcs2)]
        if not all(m):
            return None
        fill(r, nm, fn, uids + uids2, m)
    register(ex, r)
    return r


# ---------------------------------------------------------------- lane lemmas
def leaves_of(t):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if is_num(x):
            continue
        if z3.is_app(x) and (x.decl().kind() == z3.Z3_OP_UNINTERPRETED or x.decl().kind() == z3.Z3_OP_ITE or z3.is_bool(x)):
            out.append(x)
        else:
            st.extend(reversed(x.children()))
    return out


X1, X2 = z3.BitVec('lane!x', 8), z3.BitVec('lane!y', 8)


def npval(t, env):
    """evaluate a bit-vector term over numpy arrays of operand values"""
    memo = {}

    def signed(q, w):
        s = np.uint64(1 << (w - 1))
        return q ^ s

    def gob(b):
        """boolean terms"""
        d = b.decl().kind()
        if d == z3.Z3_OP_TRUE or d == z3.Z3_OP_FALSE:
            return np.bool_(d == z3.Z3_OP_TRUE)
        if d == z3.Z3_OP_NOT:
            return ~gob(b.arg(0))
        if d in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            r = gob(b.arg(0))
            for q in b.children()[1:]:
                r = (r & gob(q)) if d == z3.Z3_OP_AND else (r | gob(q))
            return r
        if d == z3.Z3_OP_ITE:
            return np.where(gob(b.arg(0)), gob(b.arg(1)), gob(b.arg(2)))
        if d in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            p, q = (gob(y) if z3.is_bool(y) else go(y) for y in b.children())
            return (p == q) if d == z3.Z3_OP_EQ else (p != q)
        f = {z3.Z3_OP_ULT: 'lt', z3.Z3_OP_ULEQ: 'le', z3.Z3_OP_UGT: 'gt', z3.Z3_OP_UGEQ: 'ge',
             z3.Z3_OP_SLT: 'lt', z3.Z3_OP_SLEQ: 'le', z3.Z3_OP_SGT: 'gt', z3.Z3_OP_SGEQ: 'ge'}.get(d)
        if f is None:
            raise Unsupported('lane operation')
        p, q = go(b.arg(0)), go(b.arg(1))
        if d in (z3.Z3_OP_SLT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ):
            w = b.arg(0).size()
            p, q = signed(p, w), signed(q, w)
        return {'lt': p < q, 'le': p <= q, 'gt': p > q, 'ge': p >= q}[f]

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k][0]
        w = x.size()
        mask = np.uint64((1 << w) - 1)
        if is_num(x):
            r = np.uint64(num(x))
        elif k in env:
            r = env[k]
        else:
            d = x.decl().kind()
            a = [go(c) for c in x.children()] if d != z3.Z3_OP_ITE else []
            u = np.uint64
            if d == z3.Z3_OP_BADD:
                r = sum(a[1:], a[0])
            elif d == z3.Z3_OP_BMUL:
                r = a[0]
                for q in a[1:]:
                    r = r * q
            elif d == z3.Z3_OP_BSUB:
                r = a[0] - a[1]
            elif d == z3.Z3_OP_BNEG:
                r = (~a[0]) + u(1)
            elif d == z3.Z3_OP_BNOT:
                r = ~a[0]
            elif d == z3.Z3_OP_BAND:
                r = a[0]
                for q in a[1:]:
                    r = r & q
            elif d == z3.Z3_OP_BOR:
                r = a[0]
                for q in a[1:]:
                    r = r | q
            elif d == z3.Z3_OP_BXOR:
                r = a[0]
                for q in a[1:]:
                    r = r ^ q
            elif d == z3.Z3_OP_ZERO_EXT:
                r = a[0]
            elif d == z3.Z3_OP_SIGN_EXT:
                ow = x.arg(0).size()
                r = np.where((a[0] >> u(ow - 1)) & u(1), a[0] | u(((1 << w) - 1) ^ ((1 << ow) - 1)), a[0])
            elif d == z3.Z3_OP_EXTRACT:
                hi, lo = x.params()
                r = a[0] >> u(lo)
            elif d == z3.Z3_OP_CONCAT:
                r = a[0]
                for c, q in zip(x.children()[1:], a[1:]):
                    r = (r << u(c.size())) | q
            elif d in (z3.Z3_OP_BLSHR, z3.Z3_OP_BSHL, z3.Z3_OP_BASHR) and is_num(x.arg(1)):
                n = num(x.arg(1))
                if d == z3.Z3_OP_BLSHR:
                    r = a[0] >> u(n)
                elif d == z3.Z3_OP_BSHL:
                    r = a[0] << u(n)
                else:
                    s = np.where((a[0] >> u(w - 1)) & u(1), u(((1 << n) - 1) << (w - n)) if n else u(0), u(0))
                    r = (a[0] >> u(n)) | s
            elif d in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I, z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and is_num(x.arg(1)) and num(x.arg(1)):
                r = a[0] % a[1] if d in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) else a[0] // a[1]
            elif d in (z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I) and is_num(x.arg(1)) and 0 < num(x.arg(1)) < 1 << (w - 1):
                neg = (a[0] >> u(w - 1)) & u(1)
                r = np.where(neg, -((-a[0] & mask) % a[1]), a[0] % a[1])
            elif d == z3.Z3_OP_ITE:
                r = np.where(gob(x.arg(0)), go(x.arg(1)), go(x.arg(2)))
            else:
                raise Unsupported('lane operation')
        r = r & mask
        memo[k] = (r, x)
        return r
    return go(t)


_G = np.meshgrid(np.arange(127, dtype=np.uint64), np.arange(127, dtype=np.uint64), indexing='ij')
CAND2 = [('mul', _G[0] * _G[1] % 127, F.mul), ('add', (_G[0] + _G[1]) % 127, lambda c, a, b: F.addmod(a, b)),
         ('sub', (_G[0] + 127 - _G[1]) % 127, lambda c, a, b: F.submod(a, b))]
_tpl = {}


def lane(ex, t, info=False):
    """replace a recognised field operation by its exact meaning"""
    v, i = lane_(ex, t)
    return (v, i) if info else v


def lane_(ex, t):
    if is_num(t):
        return t, None
    known = ex.laneinfo.get(t.get_id())
    if known:
        return t, known[0]
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return t, ('copy', 'c', [t], lambda c, a, b: a)
    ls = leaves_of(t)
    if any(x.size() != 8 if z3.is_bv(x) else True for x in ls):
        return t, None
    ab = [z3.BitVec(f'lane!{k}', 8) for k in range(len(ls))]
    s = z3.simplify(z3.substitute(t, *zip(ls, ab)))
    if is_num(s):
        return s, None
    used = [x for x in leaves_of(s)]
    if any(not any(z3.eq(x, y) for y in ab) for x in used) or not 1 <= len(used) <= 2:
        return t, None
    ops = [ls[[k for k, y in enumerate(ab) if z3.eq(x, y)][0]] for x in used]
    # operand order by position of the leaf, so that equal templates of all lanes agree
    tp = z3.substitute(s, *zip(used, (X1, X2)))
    if z3.eq(tp, X1):
        return ops[0], ('copy', 'c', [ops[0]], lambda c, a, b: a)
    key = tp.sexpr()
    if key not in _tpl:
        _tpl[key] = recognise(ex, tp, len(ops), len(_tpl))
    r = _tpl[key]
    if r is None:
        return t, None
    nm, fn, f, n, uid = r
    a, b = ops[0], (ops[1] if n == 2 else ops[0])
    v = f(a, b) if n == 2 else f(a)
    c = ex.ctx
    inf = (nm, uid, ops, fn)
    if v.get_id() not in ex.laneinfo:
        ex.laneinfo[v.get_id()] = (inf, v)
    k2 = ('lane', v.get_id())
    if k2 not in c.inst_done:
        c.inst_done.add(k2)
        c.keep.append((v,))
        c.fact(Implies(And(z3.ULT(a, bv(127, 8)), z3.ULT(b, bv(127, 8))), v == fn(c, a, b)))
    return v, inf


def recognise(ex, tp, n, uid):
    try:
        if n == 2:
            val = npval(tp, {X1.get_id(): _G[0], X2.get_id(): _G[1]})
            for nm, want, fn in CAND2:
                if np.array_equal(np.broadcast_to(val, want.shape), want):
                    return nm, fn, z3.Function(f'LANE{uid}', z3.BitVecSort(8), z3.BitVecSort(8), z3.BitVecSort(8)), 2, uid
        else:
            x = np.arange(127, dtype=np.uint64)
            val = npval(tp, {X1.get_id(): x})
            if np.array_equal(np.broadcast_to(val, x.shape), x):
                return 'id', lambda c, a, b: a, z3.Function(f'LANE{uid}', z3.BitVecSort(8), z3.BitVecSort(8)), 1, uid
    except Unsupported:
        return None
    return None


# ---------------------------------------------------------------- intrinsics
def vptr(p, ty):
    return Ptr(p.obj, p.path, p.idxs, ty)


def at_bytes(ex, p):
    if p.obj in ('NULL', 'UNINIT', 'STRING'):
        raise Unsupported('vector access through an invalid pointer')
    act = ex.actual_ty(p)
    while act.k == 'array':
        p = Ptr(p.obj, p.path, p.idxs + [I(0)], act.to)
        act = act.to
    return p


def load(ty):
    def c(ex, st, av, fr):
        p = at_bytes(ex, av[0])
        return lanes(ex, ex.read(vptr(p, ty), st), ty.w)
    return c


def store(ty):
    def c(ex, st, av, fr):
        p = at_bytes(ex, av[0])
        v = lanes(ex, av[1], ty.w)
        ex.write(vptr(p, ty), uniform(ex, v.b()) if v.sym is None else v, st)
    return c


def op8(f, n=32):
    def c(ex, st, av, fr):
        a, b = lanes(ex, av[0], n), lanes(ex, av[1], n)
        return uniform(ex, [f(x, y) for x, y in zip(a.b(), b.b())])
    return c


def op16(f, n=32):
    def c(ex, st, av, fr):
        a, b = lanes(ex, av[0], n), lanes(ex, av[1], n)
        return Lanes(ws=[f(x, y) for x, y in zip(a.h(), b.h())])
    return c


def imm(t):
    t = z3.simplify(t)
    if not is_num(t):
        raise Unsupported('immediate operand')
    return num(t)


def sh16(f, n=32):
    def c(ex, st, av, fr):
        k = imm(av[1])
        if k > 15:
            raise Unsupported('shift count')
        return Lanes(ws=[f(x, k) for x in lanes(ex, av[0], n).h()])
    return c


def lsr(x, k):
    return bv(num(x) >> k, 16) if is_num(x) else z3.LShR(x, k)


def bnot(f):
    return f


def set1(n, half=False):
    def c(ex, st, av, fr):
        v = av[0]
        if half:
            return Lanes(ws=[trunc(v, 16)] * (n // 2))
        return Lanes([trunc(v, 8)] * n)
    return c


def mulhi(x, y):
    return z3.Extract(31, 16, zext(x, 32) * zext(y, 32))


def c_extract(ex, st, av, fr):
    b = lanes(ex, av[0]).b()
    k = imm(av[1]) & 1
    return Lanes(b[16 * k:16 * k + 16])


def c_cvt(ex, st, av, fr):
    return Lanes(ws=[zext(x, 16) for x in lanes(ex, av[0], 16).b()])


def c_shuffle(ex, st, av, fr):
    a, m = lanes(ex, av[0]).b(), lanes(ex, av[1]).b()
    out = []
    for k in range(32):
        s = z3.simplify(m[k])
        if not is_num(s):
            raise Unsupported('shuffle control is not constant')
        out.append(bv(0, 8) if num(s) & 0x80 else a[(k & 16) + (num(s) & 15)])
    return Lanes(out)


def c_perm2(ex, st, av, fr):
    a, b = lanes(ex, av[0]).b(), lanes(ex, av[1]).b()
    k = imm(av[2])
    q = [a[:16], a[16:], b[:16], b[16:]]
    z = [bv(0, 8)] * 16
    return Lanes((z if k & 8 else q[k & 3]) + (z if k & 0x80 else q[(k >> 4) & 3]))


def c_perm4(ex, st, av, fr):
    a = lanes(ex, av[0]).b()
    k = imm(av[1])
    out = []
    for j in range(4):
        s = (k >> (2 * j)) & 3
        out += a[8 * s:8 * s + 8]
    return Lanes(out)


def c_unpack(hi):
    def c(ex, st, av, fr):
        a, b = lanes(ex, av[0]).b(), lanes(ex, av[1]).b()
        out = []
        for base in (0, 16):
            for k in range(8):
                out += [a[base + 8 * hi + k], b[base + 8 * hi + k]]
        return Lanes(out)
    return c


def full(x):
    return Ite(x, bv(255, 8), bv(0, 8))


def zero(ex, st, av, fr):
    return Lanes([bv(0, 8)] * 32)


def _and(x, y):
    for a, b in ((x, y), (y, x)):
        if is_num(a):
            if num(a) == 0:
                return a
            if num(a) == (1 << a.size()) - 1:
                return b
    return bv(num(x) & num(y), x.size()) if is_num(x) and is_num(y) else x & y


INTRIN = {
    '_mm256_loadu_si256': load(V32), '_mm256_load_si256': load(V32), '_mm_loadu_si128': load(V16),
    '_mm256_storeu_si256': store(V32), '_mm256_store_si256': store(V32), '_mm_storeu_si128': store(V16),
    '_mm256_add_epi8': op8(lambda x, y: arith('+', x, y)), '_mm_add_epi8': op8(lambda x, y: arith('+', x, y), 16),
    '_mm256_sub_epi8': op8(lambda x, y: arith('-', x, y)),
    '_mm256_add_epi16': op16(lambda x, y: arith('+', x, y)), '_mm256_sub_epi16': op16(lambda x, y: arith('-', x, y)),
    '_mm256_mullo_epi16': op16(lambda x, y: arith('*', x, y)), '_mm256_mulhi_epu16': op16(mulhi),
    '_mm256_srai_epi16': sh16(lambda x, k: x >> k), '_mm256_srli_epi16': sh16(lsr), '_mm_srli_epi16': sh16(lsr, 16),
    '_mm256_slli_epi16': sh16(lambda x, k: x << k),
    '_mm256_and_si256': op8(_and), '_mm_and_si128': op8(_and, 16),
    '_mm256_or_si256': op8(lambda x, y: x | y), '_mm256_xor_si256': op8(lambda x, y: x ^ y),
    '_mm256_andnot_si256': op8(lambda x, y: ~x & y),
    '_mm256_set1_epi8': set1(32), '_mm256_set1_epi16': set1(32, True), '_mm256_setzero_si256': zero,
    '_mm256_unpacklo_epi8': c_unpack(0), '_mm256_unpackhi_epi8': c_unpack(1),
    '_mm256_cvtepu8_epi16': c_cvt, '_mm256_extracti128_si256': c_extract, '_mm256_shuffle_epi8': c_shuffle,
    '_mm256_permute2x128_si256': c_perm2, '_mm256_permute4x64_epi64': c_perm4,
    '_mm256_cmpeq_epi8': op8(lambda x, y: full(Eq(x, y))), '_mm256_cmpgt_epi8': op8(lambda x, y: full(x > y)),
    '_mm256_min_epu8': op8(lambda x, y: Ite(z3.ULT(x, y), x, y)), '_mm256_max_epu8': op8(lambda x, y: Ite(z3.ULT(x, y), y, x)),
}

# ---------------------------------------------------------------- NEON (shadow_neon/arm_neon.h)
V8 = Ty('vec', w=8)


def c_movl(ex, st, av, fr):
    return Lanes(ws=[zext(x, 16) for x in lanes(ex, av[0], 8).b()])


def c_half(k):
    def c(ex, st, av, fr):
        return lanes(ex, av[0], 16).part(ex, 8 * k, 8)
    return c


def c_tbl(ex, st, av, fr):
    a, m = lanes(ex, av[0], 16).b(), lanes(ex, av[1], 16).b()
    out = []
    for x in m:
        s = z3.simplify(x)
        if not is_num(s):
            raise Unsupported('table index is not constant')
        out.append(a[num(s)] if num(s) < 16 else bv(0, 8))
    return Lanes(out)


def c_zip(o):
    def c(ex, st, av, fr):
        a, b = lanes(ex, av[0], 16).b(), lanes(ex, av[1], 16).b()
        return Lanes([x for k in range(8) for x in (a[o + k], b[o + k])])
    return c


def sh8(f, n):
    def c(ex, st, av, fr):
        k = imm(av[1])
        if k > 7:
            raise Unsupported('shift count')
        return uniform(ex, [f(x, k) for x in lanes(ex, av[0], n).b()])
    return c


def lsr8(x, k):
    return bv(num(x) >> k, 8) if is_num(x) else z3.LShR(x, k)


INTRIN.update({
    'vld1q_u8': load(V16), 'vst1q_u8': store(V16),
    'vaddq_u8': op8(lambda x, y: arith('+', x, y), 16), 'vsubq_u8': op8(lambda x, y: arith('-', x, y), 16),
    'vaddq_u16': op16(lambda x, y: arith('+', x, y), 16), 'vsubq_u16': op16(lambda x, y: arith('-', x, y), 16),
    'vmulq_u16': op16(lambda x, y: arith('*', x, y), 16),
    'vshrq_n_u16': sh16(lsr, 16), 'vshlq_n_u16': sh16(lambda x, k: x << k, 16), 'vshrq_n_u8': sh8(lsr8, 16),
    'vandq_u8': op8(_and, 16), 'vorrq_u8': op8(lambda x, y: x | y, 16), 'veorq_u8': op8(lambda x, y: x ^ y, 16),
    'vdupq_n_u8': set1(16), 'vdupq_n_u16': set1(16, True),
    'vzip1q_u8': c_zip(0), 'vzip2q_u8': c_zip(8), 'vmovl_u8': c_movl, 'vget_low_u8': c_half(0), 'vget_high_u8': c_half(1),
    'vqtbl1q_s8': c_tbl, 'vqtbl1q_u8': c_tbl,
})
