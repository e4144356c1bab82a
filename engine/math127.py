"""Specification-level arithmetic of F_127 and the patterns that recognise it."""
import z3
from vcg import *

B8 = z3.BitVecSort(8)
M = z3.Function('M', B8, B8, B8)        # (a*b) mod 127 for all 8-bit a, b
INV = z3.Function('INV', B8, B8)        # inverse in F_127, INV(0)=0


def mul(ctx, a, b):
    """exact product modulo 127 of two 8-bit terms"""
    if is_num(a) and is_num(b):
        return bv(num(a) * num(b) % 127, 8)
    if is_num(a):
        a, b = b, a
    if is_num(b):
        if num(b) % 127 == 0:
            return bv(0, 8)
    t = M(a, b)
    key = ('M', t.get_id())
    if key not in ctx.inst_done:
        ctx.inst_done.add(key)
        ctx.keep.append((t,))
        ctx.fact(z3.ULT(t, bv(127, 8)))
        if is_num(b) and num(b) == 1:
            ctx.fact(Implies(z3.ULT(a, bv(127, 8)), t == a))
        else:
            # zero rule: lemma zero_product (enumerated over all pairs)
            ctx.fact(Implies(And(z3.ULT(a, bv(127, 8)), z3.ULT(b, bv(127, 8))),
                             (t == 0) == Or(a == 0, b == 0)))
            if not is_num(b):
                t2 = M(b, a)
                ctx.keep.append((t2,))
                ctx.fact(t == t2)
    return t


def inv(ctx, a):
    if is_num(a):
        return bv(pow(num(a) % 127, 125, 127), 8)
    t = INV(a)
    key = ('INV', t.get_id())
    if key not in ctx.inst_done:
        ctx.inst_done.add(key)
        ctx.keep.append((t,))
        ok = z3.ULT(a, bv(127, 8))
        ctx.fact(Implies(ok, And(z3.ULT(t, bv(127, 8)), (t == 0) == (a == 0))))
        ctx.fact(Implies(And(ok, Not(Eq(a, bv(0, 8)))), And(mul(ctx, a, t) == 1)))
    return t


def neg(a):
    return Ite(Eq(a, bv(0, 8)), bv(0, 8), bv(127, 8) - a)


def submod(a, b):
    """(a-b) mod 127 for canonical a, b"""
    return Ite(z3.UGE(a, b), a - b, a + bv(127, 8) - b)


def addmod(a, b):
    s = a + b          # < 254, no overflow for canonical operands
    return Ite(z3.UGE(s, bv(127, 8)), s - bv(127, 8), s)


def ub(t):
    """syntactic upper bound of the unsigned value"""
    if is_num(t):
        return num(t)
    k = t.decl().kind()
    full = (1 << t.size()) - 1
    if k == z3.Z3_OP_ZERO_EXT:
        return ub(t.arg(0))
    if k == z3.Z3_OP_ITE:
        return max(ub(t.arg(1)), ub(t.arg(2)))
    if k == z3.Z3_OP_BADD:
        s = sum(ub(c) for c in t.children())
        return min(s, full) if s <= full else full
    if k == z3.Z3_OP_BMUL:
        s = 1
        for c in t.children():
            s *= ub(c)
        return min(s, full)
    if k == z3.Z3_OP_BAND:
        return min(ub(c) for c in t.children())
    if k == z3.Z3_OP_UNINTERPRETED and t.decl().name() == 'M':
        return 126
    if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and is_num(t.arg(1)) and num(t.arg(1)):
        return num(t.arg(1)) - 1
    return full


def nowrap(t):
    """children sum/product does not wrap"""
    k = t.decl().kind()
    full = (1 << t.size()) - 1
    if k == z3.Z3_OP_BADD:
        return sum(ub(c) for c in t.children()) <= full
    if k == z3.Z3_OP_BMUL:
        s = 1
        for c in t.children():
            s *= ub(c)
        return s <= full
    return True


def mod127(ctx, t):
    """value (8 bit) of t mod 127 (t unsigned); None when no pattern applies"""
    if is_num(t):
        return bv(num(t) % 127, 8)
    k = t.decl().kind()
    if k == z3.Z3_OP_ZERO_EXT:
        return mod127(ctx, t.arg(0))
    if k == z3.Z3_OP_BADD and nowrap(t):
        cs = t.children()
        rest = [c for c in cs if not (is_num(c) and num(c) % 127 == 0)]
        if len(rest) < len(cs):
            if len(rest) == 1:
                return mod127(ctx, rest[0])
            r = rest[0]
            for c in rest[1:]:
                r = r + c
            return mod127(ctx, r)
    if k == z3.Z3_OP_BMUL and nowrap(t) and t.num_args() == 2:
        a, b = core8(t.arg(0)), core8(t.arg(1))
        if a is not None and b is not None:
            return mul(ctx, a, b)
    u = ub(t)
    if u < 127:
        return trunc(t, 8)
    w = max(8, u.bit_length())
    if w < t.size():
        t2 = trunc(t, w)
        r = z3.URem(t2, bv(127, w))
    else:
        r = z3.URem(t, bv(127, t.size()))
    return trunc(r, 8)


# ---- lemma instances used by specifications (each is a property of F_127 that
#      units/C01 establishes by enumeration of all operands)
def lem_assoc(ctx, a, b, c):
    ok = And(z3.ULT(a, bv(127, 8)), z3.ULT(b, bv(127, 8)), z3.ULT(c, bv(127, 8)))
    ctx.fact(Implies(ok, mul(ctx, mul(ctx, a, b), c) == mul(ctx, a, mul(ctx, b, c))))


def lem_one(ctx, a):
    ctx.fact(Implies(z3.ULT(a, bv(127, 8)), And(mul(ctx, a, bv(1, 8)) == a)))


def lem_distr_sub(ctx, a, b, c):
    """a*(b-c) = a*b - a*c"""
    ok = And(*[z3.ULT(x, bv(127, 8)) for x in (a, b, c)])
    ctx.fact(Implies(ok, mul(ctx, a, submod(b, c)) == submod(mul(ctx, a, b), mul(ctx, a, c))))


def lem_scale(ctx, s, x, y):
    """(s*x) * inv(s*y) = x * inv(y) for canonical x and nonzero s, y"""
    ok = And(z3.ULT(x, bv(127, 8)), z3.ULT(s, bv(127, 8)), z3.ULT(y, bv(127, 8)), Not(Eq(s, bv(0, 8))), Not(Eq(y, bv(0, 8))))
    ctx.fact(Implies(ok, mul(ctx, mul(ctx, s, x), inv(ctx, mul(ctx, s, y))) == mul(ctx, x, inv(ctx, y))))


def lem_succ(ctx, a, b):
    """(a+1)*b = a*b + b for canonical a < 126 and b"""
    ok = And(z3.ULT(a, bv(126, 8)), z3.ULT(b, bv(127, 8)))
    a1 = arith('+', a, bv(1, 8))
    ctx.fact(Implies(ok, mul(ctx, a1, b) == addmod(mul(ctx, a, b), b)))
    ctx.fact(Implies(z3.ULT(b, bv(127, 8)), And(mul(ctx, bv(1, 8), b) == b)))


def lem_negmul(ctx, a, m, y):
    """a + (127-m)*y = a - m*y for canonical a, y and canonical nonzero m"""
    ok = And(*[z3.ULT(x, bv(127, 8)) for x in (a, m, y)], Not(Eq(m, bv(0, 8))))
    ctx.fact(Implies(ok, addmod(a, mul(ctx, bv(127, 8) - m, y)) == submod(a, mul(ctx, m, y))))
