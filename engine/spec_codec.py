"""Contracts of the bit-packing codecs: column actions (monomial.c) and reduced matrices (codes.c)."""
import sys
import z3
from vcg import *
from harness import *
from common import *
from spec_monomial import H, lt, unit
from bitcanon import Canon

sys.setrecursionlimit(200000)


class Bits(Canon):
    """canonical bit forms that never mention the atoms of `junk` unless they really matter"""

    inv = {}

    def mentions(self, t):
        """atoms of the canonical form of every bit of t"""
        out = set()
        bits = self.bits(t)
        if len(self.inv) != len(self.ids):
            self.inv = {v: k for k, v in self.ids.items()}
        inv = self.inv

        def walk(s):
            for a in s:
                k = inv[a]
                if k[0] == 'v':
                    out.add(k[1])
                elif k[0] == 'x':
                    walk(k[1])
                elif k[0] == 'and':
                    walk(k[1])
                    walk(k[2])
        for b in bits:
            walk(b)
        return out


def u_action(cfg):
    """compress then expand: executed completely (K is a constant of the parameter set), equality of
       every decoded field with the encoded one decided on canonical bit forms"""
    @unit(cfg, 'compress_monom_action+expand_to_monom_action')
    def u(cfg, p, r):
        N, K = p.N, p.K
        V = Verif(cfg, 'monomial', 'compress_monom_action')
        V.ex.maxunroll = K + 2
        src = V.obj('action', 'monomial_action_IS_t', readonly=True)
        V.obj('back', 'monomial_action_IS_t')
        buf = V.array('compressed', 8, p.AB)
        kb = (buf.obj, buf.path)
        ac, ap = [z3.BitVec(f'c{i}', 7) for i in range(K)], [z3.BitVec(f'p{i}', p.NBITS) for i in range(K)]
        fields = {('coefficients',): (ac, 8), ('permutation',): (ap, p.PW)}

        def table(vals, w, name):
            base = Base(name, 1, w)

            def rd(c, ix):
                if is_num(ix[0]) and num(ix[0]) < len(vals):
                    return zext(vals[num(ix[0])], w)
                return base.read(c, ix)
            return Lam(rd, 1, w)
        for f, (vals, w) in fields.items():
            V.st.mem[H('action', *f)] = table(vals, w, f[0])
        junk = [z3.BitVec(f'junk{i}', 8) for i in range(p.AB)]
        V.st.mem[kb] = table(junk, 8, 'buffer')
        ret, st = V.call([buf, src])
        # the encoding is a function of the action alone (and in bounds of the packed length by the safety obligations)
        C = Bits()
        after = [st.mem[kb].read(V.ctx, [I(k)]) for k in range(p.AB)]
        jid = {j.get_id() for j in junk}
        for k, t in enumerate(after):
            try:
                ok = z3.BoolVal(not (C.mentions(t) & jid))
            except Unsupported:
                ok = t == z3.substitute(t, *[(j, z3.BitVec(j.decl().name() + "'", 8)) for j in junk])
            V.prove(st, f'byte {k} is a function of the action alone', ok)
        if not is_path_true(V, st):
            raise Unsupported('encoder path depends on the data')
        # the bytes as transmitted
        V.st = st
        back = Ptr(('H', 'back'), (), [], V.type('monomial_action_IS_t'))
        V.st.mem[kb] = table(after, 8, 'sent')
        V.ex.readonly.add(buf.obj)
        ret, st = V.call([back, buf], 'expand_to_monom_action')
        if not is_path_true(V, st):
            raise Unsupported('decoder path depends on the data')
        for f, (vals, w) in fields.items():
            a = st.mem[H('back', *f)]
            for k in range(K):
                got = a.read(V.ctx, [I(k)])
                ok = got == zext(vals[k], w)     # left to the solver when the forms differ (and refuted with values when wrong)
                try:
                    if C.equal(got, zext(vals[k], w)):
                        ok = TRUE
                except Unsupported:
                    pass
                V.prove(st, f'decoded {f[0]}[{k}] is the encoded one', ok)
        V.discharge(r)
        r.backend += ' + bitcanon'
    return u


def is_path_true(V, st):
    return z3.is_true(z3.simplify(st.path))


# ------------------------------------------------------------------ C09: packed matrices
GE = (('ghost', 'e'), ())


class Pack:
    """7-bit elements in a byte string: element e occupies bits 7e..7e+6, least significant first"""

    def __init__(self, V):
        p = V.p
        self.V, self.p, self.ctx = V, p, V.ctx
        self.base = (p.N + 7) // 8
        self.total = p.K * (p.N - p.K)
        self.CNT = z3.Function('PIVOTSBEFORE', B64, B64)
        self.EB = z3.Function('ROWSTART', B64, B64)
        self.EP = z3.Function('ELEMENTOF', B64, B64)
        self.seen = set()
        self.ctx.fact(self.CNT(I(0)) == 0)
        self.ctx.fact(self.EB(I(0)) == 0)
        self.ctx.fact(self.EB(I(p.K)) == self.total)

    # definitions by recursion over the columns / rows, with their monotonicity
    def col(self, c, flag):
        k = ('c', c.get_id())
        if k in self.seen:
            return
        self.seen.add(k)
        N = self.p.N
        f = Ite(flag, I(1), I(0))
        self.ctx.keep.append((c,))
        self.ctx.fact(Implies(z3.ULE(c, I(N)), z3.ULE(self.CNT(c), c)))
        self.ctx.fact(Implies(lt(c, N), And(self.CNT(c + 1) == self.CNT(c) + f, z3.ULE(c + 1 - self.CNT(c + 1), I(N) - self.CNT(I(N))),
                                            z3.ULE(self.CNT(c + 1), self.CNT(I(N))), z3.ULE(self.CNT(c + 1), c + 1))))

    def row(self, r):
        k = ('r', r.get_id())
        if k in self.seen:
            return
        self.seen.add(k)
        self.ctx.keep.append((r,))
        p = self.p
        self.ctx.fact(Implies(lt(r, p.K), And(self.EB(r + 1) == self.EB(r) + (p.N - p.K), z3.ULE(self.EB(r + 1), I(self.total)))))
        self.ctx.fact(Implies(z3.ULE(r, I(p.K)), z3.ULE(self.EB(r), I(self.total))))

    def NR(self, c):
        return c - self.CNT(c)

    def e(self, r, c):
        return self.EB(r) + self.NR(c)

    def at(self, e):
        """index of the byte that holds the lowest bit of element e"""
        return e - z3.LShR(e + 7, 3)

    def top(self, e):
        """index of the byte that holds the highest bit of elements e, if e mod 8 is not 7"""
        return e - z3.LShR(e, 3)

    def invert(self, e):
        """every byte starts inside exactly one element e with e mod 8 != 7 (top is a bijection there)"""
        self.ctx.fact(Implies(And(e & 7 != 7, z3.ULE(e, I(self.total))), self.EP(self.top(e)) == e))

    def owner(self, b):
        k = ('b', b.get_id())
        E = self.EP(b)
        if k not in self.seen:
            self.seen.add(k)
            self.ctx.keep.append((b,))
            self.ctx.fact(Implies(z3.ULT(b, I(self.total)), And(E & 7 != 7, self.top(E) == b, z3.ULE(E, I(2 * self.total)))))
        return E


def shr8(x, k):
    return trunc(z3.LShR(zext(x, 64), k), 8)


def shl8(x, k):
    return trunc(zext(x, 64) << k, 8)


def full_byte(v0, v1, E):
    t = E & 7
    return shr8(v0, t) | shl8(v1, 7 - t)


def flag_byte(ctx, rd, k, N):
    r = bv(0, 8)
    for j in range(8):
        c = 8 * k + j
        b = rd(c) << j
        r = r | (b if N % 8 == 0 else Ite(lt(c, N), b, bv(0, 8)))
    return r


def u_compress(cfg):
    @unit(cfg, 'compress_rref')
    def u(cfg, p, r):
        N, K = p.N, p.K
        V = Verif(cfg, 'codes', 'compress_rref')
        G = V.obj('full', 'generator_mat_t', readonly=True)
        gv = H('full', 'values')
        canonical_matrix(V, gv, K, N)
        fl = V.array('flags', 8, N, readonly=True)
        fk = (fl.obj, fl.path)
        buf = V.array('compressed', 8, p.RB)
        k = (buf.obj, buf.path)
        m0, f0 = V.st.mem[gv], V.st.mem[fk]
        q = Pack(V)
        base = q.base
        f0.gens.append(lambda ix: Implies(lt(ix[0], N), z3.ULE(f0.read(V.ctx, ix), bv(1, 8))))
        V.assume(q.CNT(I(N)) == K)
        VAL = z3.Function('ELEMENT', B64, B8)      # ELEMENT(ROWSTART(r)+NR(c)) is entry (r, c), c not a pivot

        def flag(c):
            return f0.read(V.ctx, [c]) != 0

        def point(row, c):
            """the definitions at the current position"""
            q.row(row)
            q.col(c, flag(c))
            e = q.e(row, c)
            V.ctx.fact(Implies(And(lt(row, K), lt(c, N), Not(flag(c))), And(VAL(e) == m0.read(V.ctx, [row, c]), canon(VAL(e)))))
            return e

        def fb(L, x):
            return L.rd(k, x) == flag_byte(V.ctx, lambda c: f0.read(V.ctx, [c]), x, N)

        def flags(L):
            return [('flag bytes', Forall(1, lambda L, x: Implies(lt(x, L.i), fb(L, x)), [(k, None)]))]

        def stream(L, e):
            def inside(x):
                return And(z3.UGE(x, I(base)), lt(x, p.RB))

            def complete(L, x):
                E = q.owner(x - base)
                return Implies(And(inside(x), z3.ULT(E + 1, e_(L))), L.rd(k, x) == full_byte(VAL(E), VAL(E + 1), E))

            def partial(L, x):
                E = q.owner(x - base)
                return Implies(And(inside(x), E + 1 == e_(L)), L.rd(k, x) == shr8(VAL(E), E & 7))

            def e_(L):
                return L.st.mem[GE]
            st_, ix = L.var('encode_state'), L.var('compress_idx')
            return [('state', z64(st_) == e & 7), ('byte index', z64(ix) == I(base) + q.at(e)), ('elements in range', z3.ULE(e, I(q.total))),
                    ('flag bytes kept', Forall(1, lambda L, x: Implies(lt(x, base), fb(L, x)), [(k, None)])),
                    ('complete bytes', Forall(1, complete, [(k, None)])), ('partial byte', Forall(1, partial, [(k, None)]))]
        O = {}

        def rows(L):
            row = z64(L.i)
            q.row(row)
            return [('element number', L.st.mem[GE] == q.EB(row))] + stream(L, L.st.mem[GE])

        def cols(L):
            row = z64(L.ex.term(L.st, O['o']['ivar']))
            c = z64(L.i)
            e = L.st.mem[GE]
            q.invert(e)
            q.invert(e - 1)
            return [('element number', e == point(row, c))] + stream(L, e)

        def advance(Lh, Lb):
            c = z64(Lh.i)
            Lb.st.mem[GE] = Ite(flag(c), Lh.st.mem[GE], Lh.st.mem[GE] + 1)
        V.st.mem[GE] = I(0)
        V.ex.loops = {(0,): LoopSpec(flags), (1,): LoopSpec(rows, entry=lambda L: O.update(o=L.info)), (1, 0): LoopSpec(cols, ghost=([GE], advance))}
        ret, st = V.call([buf, G, fl])

        def post(x):
            b = x - base
            E = q.owner(b)
            v = V.rd(k, x, st=st)
            fbv = v == flag_byte(V.ctx, lambda c: f0.read(V.ctx, [c]), x, N)
            last = E + 1 == q.total
            return Ite(lt(x, base), fbv, And(z3.ULT(E, I(q.total)), v == Ite(last, shr8(VAL(E), E & 7), full_byte(VAL(E), VAL(E + 1), E))))
        V.forall(st, 'every byte of the packed matrix', lambda x: lt(x, p.RB), post)
        V.discharge(r)
    return u


def window(bt, q, e):
    """the 7 bits of element e; bt(i) reads data byte i"""
    s = 7 * e & 7
    i = q.at(e)
    w = z3.Concat(bt(i + 1), bt(i))
    return trunc(z3.LShR(w, trunc(s, 16)), 8) & 127


def u_expand_rref(cfg):
    @unit(cfg, 'expand_to_rref')
    def u(cfg, p, r):
        N, K = p.N, p.K
        V = Verif(cfg, 'codes', 'expand_to_rref')
        G = V.obj('full', 'generator_mat_t')
        gv = H('full', 'values')
        buf = V.array('compressed', 8, p.RB, readonly=True)
        k = (buf.obj, buf.path)
        b0 = V.st.mem[k]
        q = Pack(V)
        base = q.base
        WF = z3.Bool('WELLFORMED')

        def bit(c):
            return trunc(z3.LShR(b0.read(V.ctx, [z3.LShR(c, 3)]), trunc(c & 7, 8)), 8) & 1

        def flag(c):
            return bit(c) == 1

        EL = z3.Function('DECODED', B64, B8)

        def DV(e):
            V.ctx.fact(Implies(And(WF, z3.ULT(e, I(q.total))), canon(EL(e))))
            return EL(e)

        def unfold(e):
            # definition of DECODED(e): the seven bits at bit position 7e of the data
            V.ctx.fact(EL(e) == window(lambda i: b0.read(V.ctx, [I(base) + i]), q, e))
        V.assume(Implies(WF, q.CNT(I(N)) == K))

        def point(row, c):
            q.row(row)
            q.col(c, flag(c))
            return q.e(row, c)

        def RV(row, c):
            return Ite(flag(c), Ite(row == q.CNT(c), bv(1, 8), bv(0, 8)), DV(point(row, c)))
        fk = None

        def find(L, n=1):
            c = [x for x in L.st.mem if L.local(x) and isinstance(x[0][1], str) and x[0][1].split('::')[-1] == 'is_pivot_column']
            if len(c) != 1:
                raise ShapeMismatch('flag array')
            return c[0]

        def inv_flags(L):
            fk = find(L)
            return [('flags unpacked', Forall(1, lambda L, c: And(Implies(lt(c, 8 * z64(L.i)), L.rd(fk, c) == bit(c)),
                                                                  Implies(z3.UGE(c, 8 * z64(L.i)), L.rd(fk, c) == 0)), [(fk, None)]))]

        def inv_count(L):
            c = z64(L.i)
            q.col(c, flag(c))
            n = L.var('num_pivots')
            return [('pivots counted', n == trunc(q.CNT(c), n.size()))]

        def state(L, e):
            st_, ix = L.var('decode_state'), L.var('compress_idx')
            return [('state', z64(st_) == e & 7), ('byte index', z64(ix) == I(base) + q.at(e)), ('elements in range', z3.ULE(e, I(q.total)))]

        def ok(L, row, c):
            return And(L.rd(gv, row, c) == RV(row, c), canon(RV(row, c)))

        def rows(L):
            row = z64(L.i)
            q.row(row)
            e = L.st.mem[GE]
            return state(L, e) + [('element number', e == q.EB(row)), ('rows decoded', Forall(2, lambda L, i, c: Implies(And(lt(i, z64(L.i)), lt(i, K), lt(c, N)), ok(L, i, c)), [(gv, None)]))]
        O = {}

        def cols(L):
            row = z64(L.ex.term(L.st, O['o']['ivar']))
            c = z64(L.i)
            e = L.st.mem[GE]
            DV(e)
            unfold(e)

            def body(L, i, x):
                row = z64(L.ex.term(L.st, O['o']['ivar']))
                return Implies(And(lt(i, K), lt(x, N), Or(lt(i, row), And(i == row, lt(x, z64(L.i))))), ok(L, i, x))
            n = L.var('pivot_idx')
            return [('element number', e == point(row, c))] + state(L, e) + [('pivots so far', z64(n) == q.CNT(c)), ('entries decoded', Forall(2, body, [(gv, None)]))]
        def advance(Lh, Lb):
            Lb.st.mem[GE] = Ite(flag(z64(Lh.i)), Lh.st.mem[GE], Lh.st.mem[GE] + 1)
        V.st.mem[GE] = I(0)
        V.ex.loops = {(0,): LoopSpec(inv_flags), (1,): LoopSpec(inv_count), (2,): LoopSpec(rows, entry=lambda L: O.update(o=L.info)), (2, 0): LoopSpec(cols, ghost=([GE], advance))}
        ret, st = V.call([G, buf])
        if ret is None:
            raise Unsupported('expand_to_rref reports nothing')
        V.forall(st, 'accepted: every entry is the encoded one and canonical', lambda i, c: And(ret != 0, lt(i, K), lt(c, N)),
                 lambda i, c: And(V.rd(gv, i, c, st=st) == RV(i, c), canon(V.rd(gv, i, c, st=st))), 2)
        V.prove(st, 'accepted: exactly K pivots flagged', Implies(ret != 0, q.CNT(I(N)) == K))
        V.prove(st, 'well-formed strings are accepted', Implies(WF, ret != 0))
        V.discharge(r)
    return u


def u_rref_roundtrip(cfg):
    """lemma: decoding what compress_rref writes gives back the matrix (over the two contracts)"""
    @unit(cfg, 'lemma: packed matrix round trip')
    def u(cfg, p, r):
        V = Verif(cfg, 'codes', 'compress_rref')
        q = Pack(V)
        V.ex.name = f'{cfg.name}/round trip'
        VAL = z3.Function('ELEMENT', B64, B8)
        JUNK = z3.Function('OUTSIDE', B64, B8)
        e = fresh(64, 'e')

        def byte(i):
            E = q.owner(i)
            q.invert(e)
            q.invert(e - 1)
            last = E + 1 == q.total
            return Ite(z3.ULT(E, I(q.total)), Ite(last, shr8(VAL(E), E & 7), full_byte(VAL(E), VAL(E + 1), E)), JUNK(i))
        V.assume(canon(VAL(e)))
        V.assume(canon(VAL(e - 1)))
        V.assume(canon(VAL(e + 1)))
        s2 = V.st.copy()
        s2.path = z3.ULT(e, I(q.total))
        i = q.at(e)
        V.ctx.fact(Implies(And(e & 7 != 0, z3.UGE(e, I(1))), q.EP(q.at(e)) == e - 1))
        V.ctx.fact(Implies(And(e & 7 != 7), And(q.EP(q.top(e)) == e)))
        V.prove(s2, 'data element', window(byte, q, e) == VAL(e))
        f = z3.Function('FLAGS', B64, B8)
        c = fresh(64, 'c')
        fb = flag_byte(V.ctx, lambda x: f(x), z3.LShR(c, 3), p.N)
        s3 = V.st.copy()
        s3.path = And(lt(c, p.N), z3.ULE(f(c), bv(1, 8)), *[z3.ULE(f(8 * z3.LShR(c, 3) + j), bv(1, 8)) for j in range(8)])
        V.prove(s3, 'flag', trunc(z3.LShR(fb, trunc(c & 7, 8)), 8) & 1 == f(c))
        V.discharge(r)
        r.functions = []
    return u


def u_room(cfg):
    """the places of the interface that hold packed objects have the packed length of the codecs"""
    @unit(cfg, 'room for packed objects')
    def u(cfg, p, r):
        V = Verif(cfg, 'LESS', 'LESS_sign')

        def size(ty, field):
            ls = [l for l in V.ex.layout(V.type(ty)) if l.path[:1] == (field,)]
            if len(ls) != 1 or ls[0].ty.k != 'bv' or ls[0].ty.w != 8:
                raise ShapeMismatch(f'{ty}.{field} is not an array of bytes')
            n = 1
            for d in ls[0].dims:
                n *= d
            return n
        V.prove(V.st, f'{p.NK - 1} matrices of {p.RB} bytes in a public key', z3.BoolVal(size('pubkey_t', 'SF_G') == (p.NK - 1) * p.RB))
        V.prove(V.st, f'{p.W} actions of {p.AB} bytes in a signature', z3.BoolVal(size('sign_t', 'monom_actions') == p.W * p.AB))
        V.discharge(r)
    return u
