"""Field arithmetic of F_127: every operand of every function is evaluated (C01)."""
import z3, numpy as np
from vcg import *
import vcg
from harness import *
from common import *
from spec_monomial import H, lt, unit
from intrin import npval


def record(V, r, label, ok, kind='post', detail=''):
    V.ctx.obls.append(Obligation(f'{V.ex.name}/{label}', z3.BoolVal(bool(ok)), TRUE, len(V.ctx.facts), kind))


def evaluate(cfg, base, fname, widths, domain, scalar_only=False):
    """the function's result for every tuple of `domain` (list of arrays); symbolic execution once,
       or once per operand where the code's control flow depends on the operand"""
    def run(args):
        V = Verif(cfg, base, fname, {}, {})
        V.ex.maxunroll = 600
        ret, st = V.call(args)
        return V, ret, st
    syms = [z3.BitVec(f'x{k}', w) for k, w in enumerate(widths)]
    if not scalar_only:
        try:
            V, ret, st = run(syms)
            ret = unfold(ret)
            return V, npval(ret, {s.get_id(): d.astype(np.uint64) for s, d in zip(syms, domain)})
        except Unsupported:
            pass
    shape = domain[0].shape
    flat = [d.reshape(-1) for d in domain]
    out = np.zeros(flat[0].shape, dtype=np.uint64)
    V = Verif(cfg, base, fname, {}, {})
    V.ex.maxunroll = 600
    keep = None
    for k in range(len(flat[0])):
        st0 = State()
        ret, st = V.ex.call(fname, [bv(int(d[k]), w) for d, w in zip(flat, widths)], st0)
        ret = z3.simplify(ret)
        if not is_num(ret):
            raise Unsupported(f'{fname} does not evaluate')
        out[k] = num(ret)
        # safety obligations of this run: all must already be decided by evaluation
        keep = [o for o in V.ctx.obls if not z3.is_true(z3.simplify(o.goal))]
        V.ctx.obls[:] = keep
        V.ex.genlog.clear()
    return V, out.reshape(shape)


def unfold(t):
    """replace the specification symbol for products by its meaning"""
    from math127 import M as PROD
    memo = {}

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k][0]
        if x.num_args() == 0:
            r = x
        else:
            a = [go(c) for c in x.children()]
            if x.decl().eq(PROD):
                r = z3.Extract(7, 0, z3.URem(z3.ZeroExt(8, a[0]) * z3.ZeroExt(8, a[1]), bv(127, 16)))
            elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                raise Unsupported('result depends on an uninterpreted symbol')
            else:
                r = x.decl()(*a)
        memo[k] = (r, x)
        return r
    return go(t)


R7 = np.arange(127, dtype=np.uint64)
PA, PB = np.meshgrid(R7, R7, indexing='ij')
INVT = np.array([pow(int(x), 125, 127) for x in R7], dtype=np.uint64)


def u_scalar(cfg):
    @unit(cfg, 'scalar field functions')
    def u(cfg, p, r):
        def one(fname, widths, dom, good, label, **kw):
            bases = [b for b in ('codes', 'monomial') if fname in program(cfg, b).funcs]
            if not bases:
                return          # not called anywhere
            V, got = evaluate(cfg, bases[0], fname, widths, dom, **kw)
            got = np.broadcast_to(got, dom[0].shape)
            bad = np.argwhere(~good(got, *dom))
            record(V, r, f'{label} ({dom[0].size} operands)', not len(bad))
            if len(bad):
                k = tuple(bad[0])
                V.detail = f'operands {[int(d[k]) for d in dom]} result {int(got[k])}'
                r.models[V.ctx.obls[-1].name] = V.detail
            V.discharge(r)
            if len(bad):
                r.models[V.ctx.obls[-1].name] = V.detail
        m = lambda a, b: a * b % np.uint64(127)
        one('fq_red', [16], [np.arange(65536, dtype=np.uint64)], lambda g, x: g == x % np.uint64(127), 'fq_red(x) = x mod 127')
        one('fq_inv', [8], [R7], lambda g, x: g == INVT, 'fq_inv(x) is the inverse, 0 for 0', scalar_only=True)
        if cfg.impl != 'ref':
            one('br_mul', [8, 8], [PA, PB], lambda g, a, b: (g == m(a, b)) | ((g == m(a, b) + np.uint64(127)) & (m(a, b) != 0)),
                'br_mul(a,b) = a*b mod 127, up to one 127 that br_red removes')
            x = np.array([k for k in range(254) if k != 127], dtype=np.uint64)
            one('br_red', [8], [x], lambda g, x: g == x % np.uint64(127), 'br_red(x) = x mod 127')
    return u


def u_lemmas(cfg):
    """the facts about F_127 that the other units instantiate, each by complete enumeration"""
    @unit(cfg, 'field lemmas')
    def u(cfg, p, r):
        V = Verif(cfg, 'codes', 'fq_inv', {}, {})
        u8 = lambda x: x.astype(np.int64)
        a, b = u8(PA), u8(PB)
        mul = lambda x, y: x * y % 127
        inv = u8(INVT)
        add = lambda x, y: (x + y) % 127
        sub = lambda x, y: (x - y) % 127
        A, B, C = np.meshgrid(np.arange(127), np.arange(127), np.arange(127), indexing='ij')
        rows = [('a product is zero exactly when a factor is', (mul(a, b) == 0) == ((a == 0) | (b == 0))),
                ('commutative', mul(a, b) == mul(b, a)), ('one', mul(a, 1) == a),
                ('inverse', mul(a, inv[a]) == (a != 0)), ('inverse is zero only for zero', (inv[a] == 0) == (a == 0)),
                ('associative', mul(mul(A, B), C) == mul(A, mul(B, C))),
                ('distributes over differences', mul(A, sub(B, C)) == sub(mul(A, B), mul(A, C))),
                ('common factors cancel', (mul(mul(A, B), inv[mul(A, C)]) == mul(B, inv[C])) | (A == 0) | (C == 0)),
                ('successor', add(mul(a, b), b) == mul(a + 1, b)),
                ('negated factor', (add(A, (127 - B) * C % 127) == sub(A, mul(B, C))) | (B == 0)),
                ('difference form', np.where(a >= b, a - b, a + 127 - b) == sub(a, b)),
                ('sum form', np.where(a + b >= 127, a + b - 127, a + b) == add(a, b))]
        for lab, ok in rows:
            record(V, r, f'lemma: {lab} ({np.size(ok)} cases)', bool(np.all(ok)), 'lemma')
        V.discharge(r)
    return u
