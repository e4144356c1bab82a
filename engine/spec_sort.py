"""Contracts of the column sort (codes.c): comparison, exchange, partition, quicksort.

Columns carry ghost identities: ID(n) is the identity of the column stored at position n,
POS its inverse, COL(i,x) the entry in row i of the column with identity x, and LT the
strict lexicographic order on identities."""
import z3
from vcg import *
from harness import *
from common import *
from spec_monomial import H, lt, unit
from spec_commit import skolem, values

GID, GPOS = (('ghost', 'id'), ()), (('ghost', 'pos'), ())
COL = z3.Function('COL', B64, B64, B8)
LT = z3.Function('LT', B64, B64, z3.BoolSort())
FD = z3.Function('FIRSTDIFF', B64, B64, B64)       # first row where two columns differ, K if none
v = H('V', 'values')


def order_facts(ctx, p, *xs):
    """strict weak order, for these identities (lemma of lex_compare_with_pivot's unit)"""
    for a in xs:
        ctx.fact(Not(LT(a, a)))
        for b in xs:
            if a is b:
                continue
            ctx.fact(Not(And(LT(a, b), LT(b, a))))
            for c in xs:
                if c is not a and c is not b:
                    ctx.fact(Implies(And(Not(LT(b, a)), Not(LT(c, b))), Not(LT(c, a))))


def ids(ctx, p, old=None, lo=None, hi=None, extra=None):
    """a bijection between positions and identities; unchanged outside lo..hi"""
    M = p.N - p.K
    a, b = Base('ID', 1, 64), Base('POS', 1, 64)

    def ga(ix):
        n = ix[0]
        x = a.f(n)
        o = [lt(x, M), b.f(x) == n]
        if old is not None:
            o.append(Implies(Not(And(z3.ULE(lo, n), z3.ULE(n, hi))), x == old.read(ctx, [n])))
        if extra is not None:
            o += extra(n, x)
        return Implies(lt(n, M), And(*o))

    def gb(ix):
        x = ix[0]
        n = b.f(x)
        return Implies(lt(x, M), And(lt(n, M), a.f(n) == x))
    a.gens.append(ga)
    b.gens.append(gb)
    return a, b


def put(ex, st, p, a, b):
    st.mem[GID], st.mem[GPOS] = a, b
    st.mem[v] = Lam(lambda c, ix: COL(ix[0], a.read(c, [ix[1]])), 2, 8)
    for k in (GID, GPOS, v):
        ex.log(k)


def holds(st, ctx, p, i, n):
    """the stored matrix is the one described by the ghost identities"""
    return Implies(And(lt(i, p.K), lt(n, p.N - p.K)), st.mem[v].read(ctx, [i, n]) == COL(i, st.mem[GID].read(ctx, [n])))


def described(ex, st, p, what):
    skolem(ex, st, f'{what} {ex.site}', lambda i, n: TRUE, lambda i, n: holds(st, ex.ctx, p, i, n), 2)


def on_V(ex, st, ptr):
    if ptr.obj != ('H', 'V'):
        raise Unsupported('sorting another object')


def setup(V):
    p = V.p
    vp = V.obj('V', 'normalized_IS_t')
    a, b = ids(V.ctx, p)
    put(V.ex, V.st, p, a, b)
    return vp, a, b


# ------------------------------------------------------------------ comparison
def u_compare(cfg):
    @unit(cfg, 'lex_compare_with_pivot')
    def u(cfg, p, r):
        K, M = p.K, p.N - p.K
        pv = H('pivot')
        f = z3.BitVec('first', 64)
        col = z3.BitVec('col', p.PW)
        same = lambda V, i: V.st.mem[v].f(i, z64(col)) == V.st.mem[pv].f(i)
        V = Verif(cfg, 'codes', 'lex_compare_with_pivot', {}, {
            (0,): LoopSpec(lambda L: [('no difference so far', And(z3.ULE(z64(L.i), f)))], decreases=lambda L: I(K) - z64(L.i))})
        vp = V.obj('V', 'normalized_IS_t')
        q = V.array('pivot', 8, K)
        V.assume(And(lt(z64(col), M), z3.ULE(f, I(K))))
        V.gen(v, lambda i, n: Implies(n == z64(col), And(Implies(lt(i, f), same(V, i)), Implies(And(i == f, lt(i, K)), Not(same(V, i))))))
        v0, p0 = V.st.mem[v], V.st.mem[pv]
        ret, st = V.call([vp, col, q])
        a, b = V.rd(v, f, z64(col)), V.rd(pv, f)
        V.prove(st, 'decided at the first difference', Implies(lt(f, K), ret == Ite(z3.UGT(a, b), bv(-1, 32), bv(1, 32))))
        V.prove(st, 'equal columns', Implies(f == K, ret == 0))
        V.prove(st, 'first difference differs', Implies(lt(f, K), a != b))
        V.forall(st, 'nothing changed', lambda i, n: And(lt(i, K), lt(n, M)), lambda i, n: V.rd(v, i, n, st=st) == v0.read(V.ctx, [i, n]), 2)
        # the order decided at the first difference is a strict weak order with equality of columns as its equivalence
        x, y, z = z3.BitVecs('x y z', 64)

        def first(a, b):
            d = FD(a, b)
            for c in (a, b):
                pass
            V.assume(z3.ULE(d, I(K)))
            for w in pts:
                V.assume(Implies(lt(w, d), COL(w, a) == COL(w, b)))
            V.assume(Implies(lt(d, K), COL(d, a) != COL(d, b)))
            return And(lt(d, K), z3.ULT(COL(d, a), COL(d, b)))
        pairs = [(a, b) for a in (x, y, z) for b in (x, y, z) if a is not b]
        pts = [FD(a, b) for a, b in pairs]
        for a, b in pairs:
            V.assume(LT(a, b) == first(a, b))
        V.prove(V.st, 'lemma: asymmetric', Not(And(LT(x, y), LT(y, x))), 'lemma')
        V.prove(V.st, 'lemma: "not greater" is transitive', Implies(And(Not(LT(y, x)), Not(LT(z, y))), Not(LT(z, x))), 'lemma')
        w = z3.BitVec('w', 64)
        V.assume(Implies(lt(w, FD(x, y)), COL(w, x) == COL(w, y)))
        V.prove(V.st, 'lemma: incomparable columns are equal', Implies(And(Not(LT(x, y)), Not(LT(y, x)), lt(w, K)), COL(w, x) == COL(w, y)), 'lemma')
        V.discharge(r)
    return u


def c_compare(p, pid):
    def c(ex, st, av, fr):
        V, col, piv = av
        on_V(ex, st, V)
        n = z64(col)
        ex.oblige(st, f'column index in range {ex.site}', lt(n, p.N - p.K), 'pre')
        described(ex, st, p, 'matrix is described by the identities')
        a = st.mem[(piv.obj, piv.path)]
        skolem(ex, st, f'pivot column is the chosen one {ex.site}', lambda i: lt(i, p.K), lambda i: a.read(ex.ctx, [i]) == COL(i, pid), 1)
        x = st.mem[GID].read(ex.ctx, [n])
        order_facts(ex.ctx, p, x, pid)
        return Ite(LT(x, pid), bv(1, 32), Ite(LT(pid, x), bv(-1, 32), bv(0, 32)))
    return c


def u_swap(cfg):
    @unit(cfg, 'column_swap')
    def u(cfg, p, r):
        K, M = p.K, p.N - p.K
        c1, c2 = z3.BitVec('c1', p.PW), z3.BitVec('c2', p.PW)
        a, b = z64(c1), z64(c2)

        def want(V0, i, n, done):
            return Ite(lt(i, done), V0(i, Ite(n == a, b, Ite(n == b, a, n))), V0(i, n))

        def inv(L):
            return [('rows exchanged', Forall(2, lambda L, i, n: Implies(And(lt(i, K), lt(n, M)), L.rd(v, i, n) == want(V0, i, n, L.i)), [(v, None)]))]
        V = Verif(cfg, 'codes', 'column_swap', {}, {(0,): LoopSpec(inv)})
        vp = V.obj('V', 'normalized_IS_t')
        v0 = V.st.mem[v]
        V0 = lambda i, n: v0.read(V.ctx, [i, n])
        V.assume(And(lt(a, M), lt(b, M)))
        ret, st = V.call([vp, c1, c2])
        V.forall(st, 'exactly the two columns are exchanged', lambda i, n: And(lt(i, K), lt(n, M)), lambda i, n: V.rd(v, i, n, st=st) == want(V0, i, n, I(K)), 2)
        V.discharge(r)
    return u


def c_swap(p):
    def c(ex, st, av, fr):
        V, c1, c2 = av
        on_V(ex, st, V)
        a, b = z64(c1), z64(c2)
        M = p.N - p.K
        ex.oblige(st, f'column indices in range {ex.site}', And(lt(a, M), lt(b, M)), 'pre')
        described(ex, st, p, 'matrix is described by the identities')
        i0, p0 = st.mem[GID], st.mem[GPOS]
        ia, ib = i0.read(ex.ctx, [a]), i0.read(ex.ctx, [b])
        n1 = Store(Store(i0, [a], ib), [b], ia)
        q1 = Store(Store(p0, [ia], b), [ib], a)
        put(ex, st, p, n1, q1)
    return c


# ------------------------------------------------------------------ partition
def u_partition(cfg):
    @unit(cfg, 'Hoare_partition')
    def u(cfg, p, r):
        first_proved(cfg, p, r, [scan(0), scan(1)])

    def scan(ahead):
        return lambda cfg, p, r: body(cfg, p, r, ahead)

    def body(cfg, p, r, ahead):
        """ahead: the scans step before their loop, not at the start of the body"""
        K, M = p.K, p.N - p.K
        cl, ch = z3.BitVec('col_l', p.PW), z3.BitVec('col_h', p.PW)
        l, h = z64(cl), z64(ch)
        V = Verif(cfg, 'codes', 'Hoare_partition', {}, {})
        vp, id0, pos0 = setup(V)
        pid = id0.read(V.ctx, [l])
        V.assume(And(lt(l, M), lt(h, M), z3.ULT(l, h)))
        V.assume(Not(LT(pid, pid)))
        E = {}

        def nxt(L):
            return z64(L.var('i') + bv(1, p.PW))

        def jj(L):
            return z64(L.var('j'))

        def small(L, n, bound):
            return Implies(And(z3.ULE(l, n), z3.ULT(n, bound)), Not(LT(pid, L.rd(GID, n))))

        def big(L, n, bound):
            return Implies(And(z3.ULE(bound, n), z3.ULE(n, h)), Not(LT(L.rd(GID, n), pid)))

        def frame(L):
            return [('matrix described', Forall(2, lambda L, i, n: holds(L.st, L.ex.ctx, p, i, n), [(v, None)])),
                    ('identities', Forall(1, lambda L, n: Implies(lt(n, M), And(
                        lt(L.rd(GID, n), M), L.rd(GPOS, L.rd(GID, n)) == n,
                        Implies(Not(And(z3.ULE(l, n), z3.ULE(n, h))), L.rd(GID, n) == id0.read(V.ctx, [n])))), [(GID, None)])),
                    ('positions', Forall(1, lambda L, x: Implies(lt(x, M), And(lt(L.rd(GPOS, x), M), L.rd(GID, L.rd(GPOS, x)) == x)), [(GPOS, None)]))]

        def copy(L):
            pc = E['pc'] = one_local(L)
            return [('pivot copied', Forall(1, lambda L, i: Implies(lt(i, L.i), L.rd(pc, i) == COL(i, pid)), [(pc, None)]))]

        def first(L):
            return And(nxt(L) == l, jj(L) == h + 1, L.rd(GID, l) == pid)

        def later(L):
            return And(z3.ULT(l, nxt(L)), z3.ULE(nxt(L), jj(L)), z3.ULE(jj(L), h))

        def outer(L):
            a, b = nxt(L), jj(L)
            return frame(L) + [
                ('scan positions', Or(first(L), later(L))),
                ('left part not greater', Forall(1, lambda L, n: small(L, n, nxt(L)), [(GID, None)])),
                ('right part not smaller', Forall(1, lambda L, n: big(L, n, jj(L)), [(GID, None)]))]

        def note(L):
            E['a'], E['b'], E['first'], E['L'] = nxt(L), jj(L), first(L), L
            L.rd(GID, jj(L))
            L.rd(GID, nxt(L) - 1)
            L.rd(GID, l)

        def un(L):
            return z64(L.var('i')) if ahead else nxt(L)

        def dn(L):
            return jj(L) + 1 if ahead else jj(L)

        def up(L):
            stop = Ite(E['first'], l, E['b'])
            return [('below the stopper', And(z3.ULE(E['a'], un(L)), z3.ULE(un(L), stop))),
                    ('left part not greater', Forall(1, lambda L, n: small(L, n, un(L)), [(GID, None)]))]

        def down(L):
            stop = Ite(E['first'], l, E['a'] - 1)
            return [('above the stopper', And(z3.ULT(stop, dn(L)), z3.ULE(dn(L), E['b']))),
                    ('right part not smaller', Forall(1, lambda L, n: big(L, n, dn(L)), [(GID, None)]))]
        V.ex.contracts.update({'lex_compare_with_pivot': c_compare(p, pid), 'column_swap': c_swap(p)})
        V.ex.loops = {(0,): LoopSpec(copy),
                      (1,): LoopSpec(outer, head=note, decreases=lambda L: jj(L)),
                      (1, 0): LoopSpec(up, decreases=lambda L: I(1 << 20) - un(L)),
                      (1, 1): LoopSpec(down, decreases=lambda L: dn(L))}
        ret, st = V.call([vp, cl, ch])
        q = sext(ret, 64)
        V.prove(st, 'both parts are proper', And(z3.ULE(l, q), z3.ULT(q, h)))
        rd = lambda n: V.rd(GID, n, st=st)
        V.forall(st, 'left part not greater than the pivot', lambda n: And(z3.ULE(l, n), z3.ULE(n, q)), lambda n: Not(LT(pid, rd(n))))
        V.forall(st, 'right part not smaller than the pivot', lambda n: And(z3.ULT(q, n), z3.ULE(n, h)), lambda n: Not(LT(rd(n), pid)))
        V.forall(st, 'other columns stay', lambda n: And(lt(n, M), Not(And(z3.ULE(l, n), z3.ULE(n, h)))), lambda n: rd(n) == id0.read(V.ctx, [n]))
        V.forall(st, 'a rearrangement', lambda n: lt(n, M), lambda n: And(lt(rd(n), M), V.rd(GPOS, rd(n), st=st) == n))
        V.forall(st, 'a rearrangement (inverse)', lambda n: lt(n, M), lambda n: And(lt(V.rd(GPOS, n, st=st), M), rd(V.rd(GPOS, n, st=st)) == n))
        V.forall(st, 'whole columns move', lambda i, n: And(lt(i, K), lt(n, M)), lambda i, n: holds(st, V.ctx, p, i, n), 2)
        V.discharge(r)
    return u


def one_local(L):
    from spec_codes import local_arrays, one
    return one(local_arrays(L), 'pivot copy')


def c_partition(p, D):
    def c(ex, st, av, fr):
        V, cl, ch = av
        on_V(ex, st, V)
        l, h = z64(cl), z64(ch)
        M = p.N - p.K
        ex.oblige(st, f'partition bounds {ex.site}', And(z3.ULT(l, h), lt(h, M)), 'pre')
        described(ex, st, p, 'matrix is described by the identities')
        pid = st.mem[GID].read(ex.ctx, [l])
        q = fresh(64, 'q')
        ex.ctx.fact(Implies(st.path, And(z3.ULE(l, q), z3.ULT(q, h))))
        a, b = ids(ex.ctx, p, st.mem[GID], l, h, lambda n, x: [
            Implies(And(z3.ULE(l, n), z3.ULE(n, q)), Not(LT(pid, x))), Implies(And(z3.ULT(q, n), z3.ULE(n, h)), Not(LT(x, pid)))])
        put(ex, st, p, a, b)
        D['parts'].append((st.path, l, q, h, pid, a, b))
        return trunc(q, 32)
    return c


def c_quicksort(p, D, bound=None):
    """the function's own contract at its recursive calls; bound: strictly shrinking interval"""
    def c(ex, st, av, fr):
        V, s, e = av
        on_V(ex, st, V)
        M = p.N - p.K
        s, e = sext(s, 64), sext(e, 64)
        ex.oblige(st, f'interval {ex.site}', And(s >= 0, s <= e + 1, e < M), 'pre')
        if bound is not None:
            ex.oblige(st, f'interval shrinks {ex.site}', e - s < bound, 'decreases')
        described(ex, st, p, 'matrix is described by the identities')
        a, b = ids(ex.ctx, p, st.mem[GID], s, e)
        put(ex, st, p, a, b)

        def sortedat(x, y, path=st.path):
            return Implies(And(path, z3.ULE(s, x), z3.ULT(x, y), z3.ULE(y, e), s <= e), Not(LT(a.read(ex.ctx, [y]), a.read(ex.ctx, [x]))))
        D['sorts'].append((st.path, s, e, a, b, sortedat))
    return c


def u_quicksort(cfg):
    @unit(cfg, 'col_lex_quicksort')
    def u(cfg, p, r):
        K, M = p.K, p.N - p.K
        s32, e32 = z3.BitVec('start', 32), z3.BitVec('end', 32)
        s, e = sext(s32, 64), sext(e32, 64)
        D = {'parts': [], 'sorts': []}
        V = Verif(cfg, 'codes', 'col_lex_quicksort', {}, {})
        vp, id0, pos0 = setup(V)
        V.assume(And(s >= 0, s <= e + 1, e < M))
        # the body is executed; the recursive calls inside go through the contract
        V.ex.contracts.update({'Hoare_partition': c_partition(p, D), 'col_lex_quicksort': c_quicksort(p, D, e - s)})
        ret, st = V.call([vp, s32, e32])
        if not D['parts'] or len(D['sorts']) != 2:
            raise ShapeMismatch('quicksort does not partition once and recurse twice')
        _, l, q, h, pid, a1, b1 = D['parts'][0]
        rd = lambda n: V.rd(GID, n, st=st)
        x, y = fresh(IDX, 'skx'), fresh(IDX, 'sky')
        fx, fy = rd(x), rd(y)
        for t in (x, y):
            ft = rd(t)
            for _, _, _, a, b, so in D['sorts']:
                for src in (b1, b):
                    m = src.read(V.ctx, [ft])
                    for arr in [a1] + [w[3] for w in D['sorts']]:
                        arr.read(V.ctx, [m])
        for so in D['sorts']:
            V.assume(so[5](x, y))
            for t in (x, y):
                V.ctx.fact(TRUE)
                z = so[3].read(V.ctx, [t])
        order_facts(V.ctx, p, fx, pid, fy)
        s2 = st.copy()
        s2.path = And(st.path, z3.ULE(s, x), z3.ULT(x, y), z3.ULE(y, e), s <= e)
        V.ex.oblige(s2, 'interval is sorted', Not(LT(fy, fx)), 'post')
        V.forall(st, 'other columns stay', lambda n: And(lt(n, M), Not(And(z3.ULE(s, n), z3.ULE(n, e), s <= e))), lambda n: rd(n) == id0.read(V.ctx, [n]))
        V.forall(st, 'a rearrangement', lambda n: lt(n, M), lambda n: And(lt(rd(n), M), V.rd(GPOS, rd(n), st=st) == n))
        V.forall(st, 'a rearrangement (inverse)', lambda n: lt(n, M), lambda n: And(lt(V.rd(GPOS, n, st=st), M), rd(V.rd(GPOS, n, st=st)) == n))
        V.forall(st, 'whole columns move', lambda i, n: And(lt(i, K), lt(n, M)), lambda i, n: holds(st, V.ctx, p, i, n), 2)
        V.discharge(r)
    return u


def u_sortcols(cfg):
    @unit(cfg, 'lex_sort_cols')
    def u(cfg, p, r):
        K, M = p.K, p.N - p.K
        D = {'parts': [], 'sorts': []}
        V = Verif(cfg, 'codes', 'lex_sort_cols', {'col_lex_quicksort': c_quicksort(p, D)}, {})
        vp, id0, pos0 = setup(V)
        ret, st = V.call([vp])
        if len(D['sorts']) != 1:
            raise ShapeMismatch('sort is not called once')
        rd = lambda n: V.rd(GID, n, st=st)
        x, y = fresh(IDX, 'skx'), fresh(IDX, 'sky')
        V.assume(D['sorts'][0][5](x, y))
        s2 = st.copy()
        s2.path = And(st.path, lt(x, M), lt(y, M), z3.ULT(x, y))
        V.ex.oblige(s2, 'all columns are in order', Not(LT(rd(y), rd(x))), 'post')
        V.forall(st, 'a rearrangement', lambda n: lt(n, M), lambda n: And(lt(rd(n), M), V.rd(GPOS, rd(n), st=st) == n))
        V.forall(st, 'whole columns move', lambda i, n: And(lt(i, K), lt(n, M)), lambda i, n: holds(st, V.ctx, p, i, n), 2)
        V.discharge(r)
    return u
