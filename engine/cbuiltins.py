"""Contracts of C library functions used by the code (trusted)."""
import z3
from vcg import *
import vcg
from goto import Ty

U8T = Ty('bv', w=8)


def resolve(ex, p):
    """(ptr to element/aggregate, type at that location)"""
    act = ex.actual_ty(p)
    return p, act


def elem_view(ex, p):
    """descend arrays to the innermost element position"""
    act = ex.actual_ty(p)
    while act.k == 'array':
        p = Ptr(p.obj, p.path, p.idxs + [I(0)], act.to)
        act = act.to
    return p, act


def span_check(ex, st, p, cnt):
    l = ex.leafinfo_prefix(p.obj, p.path)
    if not p.idxs:
        return
    k = len(p.idxs) - 1
    d = l.dims[k]
    b = p.idxs[k]
    d = I(d) if isinstance(d, int) else d
    cnt = z64(cnt)
    if is_num(cnt) and is_num(b) and is_num(d):
        ok = z3.BoolVal(num(b) + num(cnt) <= num(d))
    else:
        ok = Or(Eq(cnt, I(0)), And(z3.ULE(cnt, d), z3.ULE(b, d - cnt)))
    for q in range(k):
        dd = l.dims[q]
        dd = I(dd) if isinstance(dd, int) else dd
        if is_num(p.idxs[q]) and is_num(dd) and num(p.idxs[q]) < num(dd):
            continue
        ok = And(ok, z3.ULT(p.idxs[q], dd))
    ex.oblige(st, f'in-bounds region {p.obj[-1].split("::")[-1]} {ex.site}', ok, 'safety')


def total_size(ex, ty):
    try:
        return ex.sizeof(ty)
    except Exception:
        return None


def region(ex, st, p, n):
    """describe n bytes at p: ('agg', ptr, ty) or ('lin', ptr, elemty, count)"""
    if p.obj in ('NULL', 'UNINIT', 'STRING'):
        if is_num(n) and num(n) == 0:
            return ('none',)
        raise Unsupported('memory operation on invalid pointer')
    # walk outwards: pointer to first element of an aggregate that has exactly n bytes
    act = ex.actual_ty(p)
    nn = num(n) if is_num(n) else None
    q = p
    cands = [(q, act)]
    while act.k in ('array',):
        q = Ptr(q.obj, q.path, q.idxs + [I(0)], act.to)
        act = act.to
        cands.append((q, act))
    # also parents through zero last index
    qq = p
    while qq.idxs and is_num(qq.idxs[-1]) and num(qq.idxs[-1]) == 0:
        qq = Ptr(qq.obj, qq.path, qq.idxs[:-1], None)
        try:
            ta = ex.actual_ty(qq)
        except Exception:
            break
        if ta.k == 'array':
            cands.append((Ptr(qq.obj, qq.path, qq.idxs, ta), ta))
    if nn is not None:
        for c, t in cands:
            if t.k in ('struct', 'array', 'bv') and isinstance(total_size(ex, t), int) and total_size(ex, t) == nn and t.k != 'bv':
                return ('agg', c, t)
    e, et = cands[0]
    for c, t in cands:
        if t.k in ('bv', 'vec'):
            e, et = c, t
    if et.k == 'vec':
        et = U8T
        # index already counts bytes
    if et.k == 'bv':
        es = et.w // 8
        if nn is not None:
            if nn % es:
                raise Unsupported('partial element copy')
            return ('lin', e, et, I(nn // es))
        if es == 1:
            return ('lin', e, et, z64(n))
        # n = es * k
        raise Unsupported('symbolic byte count over wide elements')
    raise Unsupported('memory region shape')


def bytes_reader(ex, st, p, n):
    """(fn(ctx,k)->8-bit term) for n bytes at p (object level)"""
    if p.obj in ex.blocked and not (is_num(n) and is_num(p.idxs[-1]) and num(n) + num(p.idxs[-1]) <= ex.blocked[p.obj]):
        raise Unsupported('read across rows')
    r = region(ex, st, p, n)
    if r[0] == 'agg' and r[2].k == 'array':
        t = r[2]
        if t.to.k == 'bv':
            r = ('lin', Ptr(r[1].obj, r[1].path, r[1].idxs + [I(0)], t.to), t.to, I(ex.sizeof(t) * 8 // t.to.w))
        elif t.to.k == 'vec':
            r = ('lin', Ptr(r[1].obj, r[1].path, r[1].idxs + [I(0)], U8T), U8T, I(ex.sizeof(t)))
    if r[0] == 'lin':
        _, e, et, cnt = r
        span_check(ex, st, e, cnt)
        v = st.mem[(e.obj, e.path)]
        if not isinstance(v, Arr):
            w = v.size() // 8

            def rd0(c, k, v=v):
                if is_num(k):
                    return z3.Extract(8 * num(k) + 7, 8 * num(k), v) if v.size() > 8 else v
                r_ = z3.Extract(7, 0, v)
                for q in range(1, v.size() // 8):
                    r_ = Ite(Eq(k, I(q)), z3.Extract(8 * q + 7, 8 * q, v), r_)
                return r_
            return rd0
        if et.w == 8:
            pre, b = e.idxs[:-1], e.idxs[-1]
            return lambda c, k, v=v: v.read(c, list(pre) + [arith('+', b, k)])
        es = et.w // 8
        pre, b = e.idxs[:-1], e.idxs[-1]

        def rd(c, k, v=v, es=es):
            if is_num(k):
                i, o = divmod(num(k), es)
                return z3.Extract(8 * o + 7, 8 * o, v.read(c, list(pre) + [arith('+', b, I(i))]))
            sh = es.bit_length() - 1
            x = v.read(c, list(pre) + [arith('+', b, z3.LShR(k, sh))])
            r_ = z3.Extract(7, 0, x)
            for q in range(1, es):
                r_ = Ite(Eq(k & I(es - 1), I(q)), z3.Extract(8 * q + 7, 8 * q, x), r_)
            return r_
        return rd
    raise Unsupported('byte view of aggregate')


def byte_leaves(ex, p):
    """(leaf, byte offset, strides) of a structure made of byte arrays only (so that it has no padding)"""
    o, out = 0, []
    for l in ex.leaves_under(p.obj, p.path):
        if l.ty.k != 'bv' or l.ty.w != 8 or not all(isinstance(d, int) for d in l.dims):
            raise Unsupported('byte view of aggregate')
        n, strides = 1, []
        for d in reversed(l.dims):
            strides.insert(0, n)
            n *= d
        out.append((l, o, strides, n))
        o += n
    return out, o


def is_struct(ex, p):
    return p.obj not in ('NULL', 'UNINIT', 'STRING') and not p.idxs and ex.actual_ty(p).k == 'struct'


def fill_struct(ex, st, p, n, fn):
    ls, total = byte_leaves(ex, p)
    n = z64(n)
    if ex.readonly and p.obj in ex.readonly:
        ex.oblige(st, f'frame {p.obj[-1]} {ex.site}', FALSE, 'frame')
    ex.oblige(st, f'in-bounds region {p.obj[-1].split("::")[-1]} {ex.site}', z3.ULE(n, I(total)), 'safety')
    for l, o, strides, _ in ls:
        key = (p.obj, l.path)
        old = st.mem[key]
        ex.log(key)
        if not strides:
            st.mem[key] = Ite(z3.ULT(I(o), n), fn(ex.ctx, I(o)), old)
            continue

        def rd(c, ix, old=old, o=o, strides=strides):
            k = I(o)
            for x, s in zip(ix, strides):
                k = arith('+', k, arith('*', x, I(s)))
            return Ite(z3.ULT(k, n), fn(c, k), old.read(c, ix))
        st.mem[key] = Lam(rd, len(strides), 8)


def fill_bytes(ex, st, p, n, fn, wide=None):
    """write n bytes at p with byte k = fn(ctx,k); wide(ctx, elemindex, w) optional element function"""
    if is_struct(ex, p):
        return fill_struct(ex, st, p, n, fn)
    if p.obj in ex.blocked:
        S = ex.blocked[p.obj]
        if not is_num(n) or not is_num(p.idxs[-1]):
            raise Unsupported('symbolic region of a row array')
        c, left, at = num(p.idxs[-1]), num(n), 0
        if c + left > S:
            row = 0
            while left:
                m = min(left, S - c)
                q = Ptr(p.obj, p.path, p.idxs[:-2] + [arith('+', p.idxs[-2], I(row)), I(c)], p.ty)
                fill_bytes(ex, st, q, I(m), lambda x, k, at=at: fn(x, arith('+', k, I(at))))
                at, left, c, row = at + m, left - m, 0, row + 1
            return
    r = region(ex, st, p, n)
    if r[0] == 'none':
        return
    if r[0] == 'agg':
        t = r[2]
        q = r[1]
        while t.k == 'array':
            q = Ptr(q.obj, q.path, q.idxs + [I(0)], t.to)
            t = t.to
        if t.k == 'vec':
            r = ('lin', q, U8T, n)
        elif t.k == 'bv' and len(q.idxs) - len(r[1].idxs) <= 1:
            r = ('lin', q, t, I(num(n) * 8 // t.w))
        else:
            raise Unsupported('fill of aggregate')
    _, e, et, cnt = r
    if ex.readonly and e.obj in ex.readonly:
        ex.oblige(st, f'frame {e.obj[-1]} {ex.site}', FALSE, 'frame')
    key = (e.obj, e.path)
    cur = st.mem[key]
    ex.log(key)
    if not isinstance(cur, Arr):
        nb = cur.size() // 8
        if num(n) == nb and not e.idxs:
            bs = [fn(ex.ctx, I(k)) for k in range(nb)]
            st.mem[key] = bs[0] if nb == 1 else z3.Concat(*reversed(bs))
            return
        raise Unsupported('fill of scalar')
    span_check(ex, st, e, cnt)
    if et.w == 8:
        st.mem[key] = ex.overlay(cur, e.idxs[:-1], e.idxs[-1], cnt, fn)
    else:
        es = et.w // 8

        def el(c, k):
            if wide is not None:
                return wide(c, k, et.w)
            bs = [fn(c, arith('+', arith('*', k, I(es)), I(o))) for o in range(es)]
            return z3.Concat(*reversed(bs))
        st.mem[key] = ex.overlay(cur, e.idxs[:-1], e.idxs[-1], cnt, el)


def c_memcpy(ex, st, av, fr):
    d, s, n = av
    if is_num(n) and num(n) == 0:
        return d
    n = z3.simplify(n) if not is_num(n) else n
    if is_struct(ex, d) and not is_struct(ex, s):
        fill_struct(ex, st, d, n, bytes_reader(ex, st, s, n))
        return d
    rs, rd = region(ex, st, s, n), region(ex, st, d, n)
    if rs[0] == 'agg' and rd[0] == 'agg' and rs[2] is rd[2]:
        v = ex.read(Ptr(rs[1].obj, rs[1].path, rs[1].idxs, rs[2]), st)
        ex.write(Ptr(rd[1].obj, rd[1].path, rd[1].idxs, rd[2]), v, st)
        return d
    if rs[0] == 'lin' and rd[0] == 'lin' and rs[2].w == rd[2].w and rs[2].w != 8 and \
            isinstance(st.mem[(rs[1].obj, rs[1].path)], Arr) and isinstance(st.mem[(rd[1].obj, rd[1].path)], Arr):
        _, e, et, cnt = rs
        span_check(ex, st, e, cnt)
        v = st.mem[(e.obj, e.path)]
        pre, b = e.idxs[:-1], e.idxs[-1]
        _, de, _, _ = rd
        span_check(ex, st, de, cnt)
        key = (de.obj, de.path)
        cur = st.mem[key]
        ex.log(key)
        st.mem[key] = ex.overlay(cur, de.idxs[:-1], de.idxs[-1], cnt,
                                 lambda c, k: v.read(c, list(pre) + [arith('+', b, k)]))
        return d
    fn = bytes_reader(ex, st, s, n)
    fill_bytes(ex, st, d, n, fn)
    return d


def c_memset(ex, st, av, fr):
    d, v, n = av
    b = trunc(v, 8)
    n = z3.simplify(n) if not is_num(n) else n
    r = region(ex, st, d, n)
    if r[0] == 'agg' and is_num(b):
        q = r[1]
        np_ = len(q.path)
        for l in ex.leaves_under(q.obj, q.path):
            key = (q.obj, l.path)
            ex.log(key)
            if l.ty.k != 'bv':
                raise Unsupported('memset of non-integer')
            w = l.ty.w
            val = bv(int.from_bytes(bytes([num(b)]) * (w // 8), 'little'), w)
            nd = len(l.dims)
            if nd == 0:
                st.mem[key] = val
            elif not q.idxs:
                st.mem[key] = Const(val, nd)
            else:
                ex.bounds(st, q.obj, l.path, q.idxs)
                st.mem[key] = Store(st.mem[key], q.idxs, Const(val, nd - len(q.idxs)) if nd > len(q.idxs) else val)
        return d
    fill_bytes(ex, st, d, n, lambda c, k: b,
               wide=lambda c, k, w: z3.Concat(*[b] * (w // 8)))
    return d


def c_ignore(ex, st, av, fr):
    return bv(0, 32)


BUILTINS = {'memcpy': c_memcpy, 'memmove': c_memcpy, 'memset': c_memset, '__builtin_memcpy': c_memcpy, '__builtin_memset': c_memset,
            'printf': c_ignore, 'fprintf': c_ignore}
