"""Contracts shared by several units: the extendable-output streams and the field."""
import z3
from vcg import *
from cbuiltins import bytes_reader, fill_bytes
import math127 as F
from goto import Ty

B64 = z3.BitVecSort(64)
B8 = z3.BitVecSort(8)
OUT = z3.Function('OUT', B64, B64, B8)       # stream id, position -> byte


def canon(t):
    return z3.ULT(t, bv(127, 8))


def nonzero(t):
    return And(z3.ULT(t, bv(127, 8)), Not(Eq(t, bv(0, 8))))


def ult(a, n):
    return z3.ULT(a, bv(n, a.size()) if isinstance(n, int) else n)


def content_id(ex, fn, n, tag='ID'):
    """identity of an n byte string: a function of its bytes (congruence only)"""
    bs = [fn(ex.ctx, I(k)) for k in range(n)]
    x = bs[0] if n == 1 else z3.Concat(*reversed(bs))
    f = z3.Function(f'{tag}{n}', z3.BitVecSort(8 * n), B64)
    return f(x)


def sid(p):
    return (p.obj, p.path + ('$id',))


def spos(p):
    return (p.obj, p.path + ('$pos',))


class StreamLog:
    """what every initialize_csprng call of a unit absorbed (for postconditions)"""

    def __init__(self):
        self.calls = []


def c_initialize_csprng(log=None):
    def c(ex, st, av, fr):
        s, seed, n = av
        if not is_num(n):
            n = z3.simplify(n)
        if not is_num(n):
            raise Unsupported('seed length is not constant')
        k = num(n)
        fn = bytes_reader(ex, st, seed, I(k))
        i = content_id(ex, fn, k)
        for key, v in ((sid(s), i), (spos(s), I(0))):
            st.mem[key] = v
            ex.log(key)
        if log is not None:
            log.calls.append((i, k, fn))
        return None
    return c


def c_squeeze(ex, st, av, fr):
    out, n, s = av
    n = z64(n)
    if not is_num(n):
        n = z3.simplify(n)
    if sid(s) not in st.mem:
        ex.oblige(st, f'stream initialised {ex.site}', FALSE, 'pre')
        raise Unsupported('squeeze from an uninitialised stream')
    i, p = st.mem[sid(s)], st.mem[spos(s)]
    fill_bytes(ex, st, out, n, lambda c, k: OUT(i, arith('+', p, k)))
    st.mem[spos(s)] = arith('+', p, n)
    ex.log(spos(s))
    return None


def c_fq_red(ex, st, av, fr):
    return zext(F.mod127(ex.ctx, av[0]), 8)


def c_fq_inv(ex, st, av, fr):
    ex.oblige(st, f'fq_inv operand canonical {ex.site}', canon(av[0]), 'pre')
    return F.inv(ex.ctx, av[0])


def c_br_mul(ex, st, av, fr):
    """for canonical operands: some r with r < 254, r mod 127 = a*b, r in {0..126} up to +127"""
    a, b = av
    ex.oblige(st, f'br_mul operands canonical {ex.site}', And(canon(a), canon(b)), 'pre')
    m = F.mul(ex.ctx, a, b)
    f = z3.Function('BRM', B8, B8, B8)
    r = f(a, b)
    ex.ctx.fact(Or(r == m, And(r == m + bv(127, 8), Not(Eq(m, bv(0, 8))))))
    return r


def c_br_red(ex, st, av, fr):
    a = av[0]
    # br_red(x) is exact for 0..126 and 128..253
    ex.oblige(st, f'br_red operand in range {ex.site}', And(a != 127, z3.ULT(a, bv(254, 8))), 'pre')
    return Ite(z3.ULT(a, bv(127, 8)), a, a - bv(127, 8))


def field_contracts(cfg):
    c = {'fq_inv': c_fq_inv}
    c['fq_red'] = c_fq_red
    if cfg.impl != 'ref':
        c.update({'br_mul': c_br_mul, 'br_red': c_br_red})
    return c


def stream_contracts(cfg, log=None):
    a = '128' if cfg.cat == '1' else '256'
    return {'initialize_csprng': c_initialize_csprng(log), f'shake{a}_inc_squeeze': c_squeeze}


# ---- rejection samplers: element k of a draw of n elements starting at (id,pos)
def samp_fn(kind):
    return (z3.Function(f'SAMP{kind}', B64, B64, B64, B8), z3.Function(f'SAMPEND{kind}', B64, B64, B64, B64))


def samp_read(ctx, kind, i, p, k):
    f, _ = samp_fn(kind)
    t = f(i, p, k)
    key = ('samp', t.get_id())
    if key not in ctx.inst_done:
        ctx.inst_done.add(key)
        ctx.keep.append((t,))
        ctx.fact(nonzero(t) if kind == 'STAR' else canon(t))
    return t


def c_sampler(kind):
    def c(ex, st, av, fr):
        s, buf, n = av
        n = z64(n)
        i, p = st.mem[sid(s)], st.mem[spos(s)]
        ex.oblige(st, f'at least one element requested {ex.site}', Not(Eq(n, I(0))), 'pre')
        fill_bytes(ex, st, buf, n, lambda c_, k: samp_read(c_, kind, i, p, k))
        st.mem[spos(s)] = samp_fn(kind)[1](i, p, n)
        ex.log(spos(s))
        return None
    return c


SAMPLERS = {'fq_star_rnd_state_elements': c_sampler('STAR'), 'rand_range_q_state_elements': c_sampler('Q')}


PLATFORM = ('G', 'platform_csprng_state')


def platform_stream(V):
    """the global source as a stream at an arbitrary position: (identity, position)"""
    if PLATFORM[1] not in V.prog.syms:
        raise Unsupported('platform randomness not found')
    V.ex.init_global(PLATFORM, PLATFORM[1], V.st)
    i, p = z3.BitVec('PLATFORM', 64), z3.BitVec('platform_pos', 64)
    V.st.mem[(PLATFORM, ('$id',))], V.st.mem[(PLATFORM, ('$pos',))] = i, p
    return i, p


def c_sampler_platform(kind):
    def c(ex, st, av, fr):
        buf, n = av
        n = z64(n)
        k = (PLATFORM, ('$pos',))
        i, p = st.mem[(PLATFORM, ('$id',))], st.mem[k]
        ex.oblige(st, f'at least one element requested {ex.site}', Not(Eq(n, I(0))), 'pre')
        fill_bytes(ex, st, buf, n, lambda c_, q: samp_read(c_, kind, i, p, q))
        st.mem[k] = samp_fn(kind)[1](i, p, n)
        ex.log(k)
        return None
    return c


PLATFORM_SAMPLERS = {'fq_star_rnd_elements': c_sampler_platform('STAR'), 'rand_range_q_elements': c_sampler_platform('Q')}


# ---- valid monomials: a permutation together with its ghost inverse
def valid_monomial(V, name, readonly=True):
    """declare object `name` of type monomial_t holding an arbitrary valid monomial;
       returns (ptr, coeff ref, perm ref, ghost inverse Arr)"""
    p = V.p
    N = p.N
    ptr = V.obj(name, 'monomial_t', readonly=readonly)
    mc, mp = (ptr.obj, ('coefficients',)), (ptr.obj, ('permutation',))
    sg = make_perm(V.ctx, V.st.mem[mp], N, p.PW, name)
    ac = V.st.mem[mc]
    ac.gens.append(lambda ix: Implies(z3.ULT(ix[0], I(N)), nonzero(ac.read(V.ctx, ix))))
    return ptr, mc, mp, sg


def make_perm(ctx, ap, N, w, name):
    """constrain Base ap to be a permutation of 0..N-1; returns its inverse"""
    sg = Base('inv_' + name, 1, w)
    ap.gens.append(lambda ix: Implies(z3.ULT(ix[0], I(N)), And(
        ult(ap.read(ctx, ix), N), sg.read(ctx, [z64(ap.read(ctx, ix))]) == trunc(ix[0], w))))
    sg.gens.append(lambda ix: Implies(z3.ULT(ix[0], I(N)), And(
        ult(sg.read(ctx, ix), N), ap.read(ctx, [z64(sg.read(ctx, ix))]) == trunc(ix[0], w))))
    return sg


def canonical_matrix(V, ref, K, N):
    a = V.st.mem[ref]
    a.gens.append(lambda ix: Implies(And(z3.ULT(ix[0], I(K)), z3.ULT(ix[1], I(N))), canon(a.read(V.ctx, ix))))
