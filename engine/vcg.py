"""Deductive VC generator over CBMC GOTO programs.

A function is executed symbolically once, states are merged at join points, loops
are cut at their heads with inductive invariants (LoopSpec), calls go through
contracts when one is registered and are otherwise inlined.  Memory is a map from
(object, field path) to a functional array (class Arr): reads expand into
if-then-else over stores down to uninterpreted functions, so obligations are
quantifier-free (UF + bit-vectors).  Universally quantified facts are attached to
arrays and instantiated at every index at which the array is read; universally
quantified goals are skolemised."""
import z3, time, itertools

IDX = 64          # width of index terms


class Unsupported(Exception):
    """the verifier cannot follow the code: undecided, never a violation"""


class ShapeMismatch(Unsupported):
    """the annotations do not fit the code's loop structure: undecided"""


# ---------------------------------------------------------------- term helpers
def is_num(t):
    return z3.is_bv_value(t)


def bv(v, w):
    return z3.BitVecVal(v, w)


def I(v):
    return v if z3.is_expr(v) else z3.BitVecVal(v, IDX)


def num(t):
    return t.as_long()


def snum(t):
    return t.as_signed_long()


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def And(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            x = z3.BoolVal(x)
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return FALSE
        ys.append(x)
    if not ys:
        return TRUE
    if len(ys) == 1:
        return ys[0]
    return z3.And(*ys)


def Or(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            x = z3.BoolVal(x)
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return TRUE
        ys.append(x)
    if not ys:
        return FALSE
    if len(ys) == 1:
        return ys[0]
    return z3.Or(*ys)


def Not(x):
    if isinstance(x, bool):
        return z3.BoolVal(not x)
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Eq(a, b):
    if z3.eq(a, b):
        return TRUE
    if is_num(a) and is_num(b):
        return z3.BoolVal(num(a) == num(b))
    return a == b


def Ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if z3.eq(a, b):
        return a
    return z3.If(c, a, b)


def width(t):
    return t.size()


def zext(t, w):
    d = w - t.size()
    if d == 0:
        return t
    if is_num(t):
        return bv(num(t), w)
    if t.decl().kind() == z3.Z3_OP_ZERO_EXT:
        return zext(t.arg(0), w)
    return z3.ZeroExt(d, t)


def sext(t, w):
    d = w - t.size()
    if d == 0:
        return t
    if is_num(t):
        return bv(snum(t), w)
    if t.decl().kind() == z3.Z3_OP_ZERO_EXT:
        return zext(t.arg(0), w)
    return z3.SignExt(d, t)


def trunc(t, w):
    s = t.size()
    if s == w:
        return t
    if is_num(t):
        return bv(num(t), w)
    k = t.decl().kind()
    if k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
        a = t.arg(0)
        if a.size() >= w:
            return trunc(a, w)
        return zext(a, w) if k == z3.Z3_OP_ZERO_EXT else sext(a, w)
    if k == z3.Z3_OP_ITE and s <= 64:
        a, b = t.arg(1), t.arg(2)
        if is_num(a) or is_num(b):
            return Ite(t.arg(0), trunc(a, w), trunc(b, w))
    if k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BSUB) and w < s:
        args = [trunc(t.arg(i), w) for i in range(t.num_args())]
        r = args[0]
        for x in args[1:]:
            r = arith({z3.Z3_OP_BADD: '+', z3.Z3_OP_BMUL: '*', z3.Z3_OP_BSUB: '-'}[k], r, x)
        return r
    return z3.Extract(w - 1, 0, t)


def arith(op, a, b):
    w = a.size()
    if is_num(a) and is_num(b):
        x, y = num(a), num(b)
        return bv({'+': x + y, '-': x - y, '*': x * y}[op], w)
    if op == '+':
        if is_num(b) and num(b) == 0:
            return a
        if is_num(a) and num(a) == 0:
            return b
        # (x + c1) + c2
        if is_num(b) and a.decl().kind() == z3.Z3_OP_BADD and a.num_args() == 2 and is_num(a.arg(1)):
            return arith('+', a.arg(0), bv(num(a.arg(1)) + num(b), w))
        if is_num(a):
            return arith('+', b, a)
        return a + b
    if op == '-':
        if is_num(b):
            return arith('+', a, bv(-num(b), w))
        if z3.eq(a, b):
            return bv(0, w)
        return a - b
    if op == '*':
        if is_num(a):
            a, b = b, a
        if is_num(b):
            if num(b) == 1:
                return a
            if num(b) == 0:
                return b
        return a * b
    raise AssertionError(op)


_fresh = itertools.count()


def fresh(w, name='v'):
    n = f'{name}!{next(_fresh)}'
    if w == 'bool':
        return z3.Bool(n)
    return z3.BitVec(n, w)


def core8(t):
    """return x (8 bit) if t is syntactically zext(x)"""
    if t.size() == 8:
        return t
    if is_num(t):
        return bv(num(t), 8) if num(t) < 256 else None
    if t.decl().kind() == z3.Z3_OP_ZERO_EXT and t.arg(0).size() <= 8:
        return zext(t.arg(0), 8)
    return None


# ---------------------------------------------------------------- arrays
class Arr:
    """functional array; read(ctx, idxs) -> term"""
    nd = 0
    w = 8

    def read(self, ctx, idxs):
        raise NotImplementedError


class Base(Arr):
    def __init__(self, name, nd, w, gens=None):
        self.nd, self.w = nd, w
        self.name = f'{name}!{next(_fresh)}'
        rng = z3.BoolSort() if w == 'bool' else z3.BitVecSort(w)
        self.f = z3.Function(self.name, *([z3.BitVecSort(IDX)] * nd), rng) if nd else None
        self.c = None if nd else (z3.Bool(self.name) if w == 'bool' else z3.BitVec(self.name, w))
        self.gens = list(gens or [])

    def read(self, ctx, idxs):
        if self.nd == 0:
            return self.c
        t = self.f(*idxs)
        if self.gens:
            ctx.instantiate(self, idxs)
        return t


class Annot(Arr):
    """same contents as `a`, with facts instantiated on reads"""

    def __init__(self, a, gens):
        self.a, self.nd, self.w, self.gens = a, a.nd, a.w, list(gens)

    def read(self, ctx, idxs):
        t = self.a.read(ctx, idxs)
        ctx.instantiate(self, idxs)
        return t


class Const(Arr):
    def __init__(self, v, nd):
        self.v, self.nd, self.w = v, nd, v.size()

    def read(self, ctx, idxs):
        return self.v


class Table(Arr):
    """constant table (1-d)"""

    def __init__(self, vals, w):
        self.vals, self.nd, self.w = vals, 1, w

    def read(self, ctx, idxs):
        i = idxs[0]
        if is_num(i) and num(i) < len(self.vals):
            return bv(self.vals[num(i)], self.w)
        r = bv(self.vals[-1], self.w)
        for k in range(len(self.vals) - 1):
            r = Ite(Eq(i, I(k)), bv(self.vals[k], self.w), r)
        return r


class Lam(Arr):
    def __init__(self, fn, nd, w):
        self.fn, self.nd, self.w = fn, nd, w
        self.cache = {}

    def read(self, ctx, idxs):
        key = tuple(x.get_id() for x in idxs)
        r = self.cache.get(key)
        if r is None:
            r = (self.fn(ctx, idxs), idxs)
            self.cache[key] = r
        return r[0]


class Store(Arr):
    """prev with sub-array at prefix `idxs` replaced by `new` (term if full)"""

    def __init__(self, prev, idxs, new, guard=TRUE):
        self.prev, self.idxs, self.new = prev, idxs, new
        self.nd, self.w = prev.nd, prev.w
        self.cache = {}
        self.const = tuple(num(i) for i in idxs) if all(is_num(i) for i in idxs) else None

    def read(self, ctx, idxs):
        key = tuple(x.get_id() for x in idxs)
        r = self.cache.get(key)
        if r is not None:
            return r[0]
        k = len(self.idxs)
        if self.const is not None and all(is_num(i) for i in idxs[:k]):
            # stores at other constant positions are skipped without recursion
            want = tuple(num(i) for i in idxs[:k])
            a = self
            while isinstance(a, Store) and a.const is not None and len(a.const) == k and a.const != want:
                a = a.prev
            if a is not self:
                v = a.read(ctx, idxs)
                self.cache[key] = (v, idxs)
                return v
        c = And(*[Eq(a, b) for a, b in zip(idxs, self.idxs)])
        if z3.is_false(c):
            v = self.prev.read(ctx, idxs)
        else:
            nv = self.new if not isinstance(self.new, Arr) else self.new.read(ctx, idxs[k:])
            v = nv if z3.is_true(c) else Ite(c, nv, self.prev.read(ctx, idxs))
        self.cache[key] = (v, idxs)
        return v


class IteArr(Arr):
    def __init__(self, c, a, b):
        self.c, self.a, self.b, self.nd, self.w = c, a, b, a.nd, a.w

    def read(self, ctx, idxs):
        return Ite(self.c, self.a.read(ctx, idxs), self.b.read(ctx, idxs))


class Sub(Arr):
    def __init__(self, a, pre):
        self.a, self.pre, self.nd, self.w = a, pre, a.nd - len(pre), a.w

    def read(self, ctx, idxs):
        return self.a.read(ctx, list(self.pre) + list(idxs))


def sub(a, pre):
    return a if not pre else Sub(a, list(pre))


# ---------------------------------------------------------------- pointers
class Ptr:
    """pointer to (obj, path, idxs) ; ty = pointee view type.  For a pointer to an
    element of an array the last index is the element index."""
    __slots__ = ('obj', 'path', 'idxs', 'ty')

    def __init__(self, obj, path, idxs, ty):
        self.obj, self.path, self.idxs, self.ty = obj, path, list(idxs), ty

    def with_ty(self, ty):
        return Ptr(self.obj, self.path, self.idxs, ty)

    def __repr__(self):
        return f'&{self.obj}.{".".join(self.path)}{self.idxs}:{self.ty}'


NULL = Ptr('NULL', (), [], None)


class PtrArr:
    """array of pointers that all point into one object/path/depth"""

    def __init__(self, nd, static=None, comps=None):
        self.nd, self.static, self.comps = nd, static, comps  # static=(obj,path,nidx,ty)


class StructVal:
    def __init__(self, leaves, ty):
        self.leaves, self.ty = leaves, ty     # path -> Arr/term


class Ghost:
    """immutable ghost value stored in a leaf"""

    def merge(self, c, other):
        raise NotImplementedError


# ---------------------------------------------------------------- state
class State:
    def __init__(self):
        self.mem = {}          # (obj, path) -> Arr | term | Ptr | PtrArr | Ghost
        self.path = TRUE

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.path = self.path
        return s


class Leaf:
    __slots__ = ('path', 'dims', 'ty')

    def __init__(self, path, dims, ty):
        self.path, self.dims, self.ty = path, dims, ty


class Obligation:
    def __init__(self, name, goal, path, nfacts, kind, info=None):
        self.name, self.goal, self.path, self.nfacts, self.kind = name, goal, path, nfacts, kind
        self.status = None
        self.time = 0.0
        self.model = None
        self.info = info
        self.facts = None


class Forall:
    """universally quantified invariant / postcondition.
       rng(x...) -> Bool guard, body(st, x...) -> Bool
       trig: list of (ptr-ish (obj,path), fn(idxs) -> list of xs or None)"""

    def __init__(self, n, body, trig=(), names=None, hint=None):
        self.n, self.body, self.trig, self.hint = n, body, list(trig), hint


class LoopSpec:
    def __init__(self, inv=None, unroll=False, decreases=None, step=None, entry=None, auto=True, cap=None,
                 ghost=None, head=None, rewrite=None, define=None):
        self.inv = inv              # fn(L) -> list of (label, Bool | Forall)
        self.unroll = unroll
        self.decreases = decreases  # fn(L) -> term (unsigned)
        self.step = step            # fn(Lhead, Lback) -> list of (label, Bool) checked at back edges
        self.entry = entry
        self.auto = auto
        self.cap = cap
        self.ghost = ghost          # (keys, fn(Lhead, Lback)): ghost state and its update at back edges
        self.rewrite = rewrite      # fn(L): replace leaves of the entry state by proved-equal values
        self.define = define        # fn(L) -> {leaf: term}: invariant leaf == term, used as a rewrite at the head
        self.head = head            # fn(L): extra facts (lemma instances) at the loop head


# counting variables that do not start at 0: False: L.i is the variable itself, True: the number of completed iterations
BASE = {'count': False, 'seen': False}


class LView:
    """view of a state handed to specifications"""

    def __init__(self, ex, st, frame, info=None, head=None, entry=None):
        self.ex, self.st, self.frame, self.info = ex, st, frame, info
        self.live = set(ex.frames)
        self.headv = head
        self.entryv = entry

    def var(self, name):
        return self.ex.var(self.st, self.frame, name, self.info)

    def counter(self, name):
        """variable `name`, or the only other variable the loop counts up"""
        try:
            return self.var(name)
        except ShapeMismatch:
            c = [i for i in self.info['cands'] if self.info['ivar'] is None or i != self.info['ivar'][0][1]]
            if len(c) != 1:
                raise
            return self.st.mem[((self.frame.id, c[0]), ())]

    def local(self, k):
        """leaf k belongs to a local variable of the function or of one of its callers"""
        return isinstance(k[0], tuple) and k[0][0] in self.live

    def arr(self, ref):
        return self.ex.leaf(self.st, ref)

    def rd(self, ref, *idxs):
        a = self.ex.leaf(self.st, ref)
        if not isinstance(a, Arr):
            return a
        return a.read(self.ex.ctx, [I(i) if isinstance(i, int) else z64(i) for i in idxs])

    @property
    def i(self):
        """induction variable of the loop (counting up by one)"""
        if self.info['ivar'] is None:
            raise ShapeMismatch('loop without an induction variable')
        ident = self.info['ivar'][0][1]
        if {d for _, _, d in self.info['cand'][ident]} != {1}:
            raise ShapeMismatch('loop does not count up by one')
        t = self.ex.term(self.st, self.info['ivar'])
        if self.entryv is not None:
            e = self.ex.term(self.entryv, self.info['ivar'])
            if not (is_num(e) and num(e) == 0):
                BASE['seen'] = True
                if BASE['count']:
                    return t - e
        return t

    @property
    def ref_i(self):
        return self.info['ivar']


def z64(t):
    if isinstance(t, int):
        return I(t)
    if t.size() == IDX:
        return t
    return zext(t, IDX)


class Ctx:
    def __init__(self, timeout=20000):
        self.facts = []
        self.obls = []
        self.inst_done = set()
        self.keep = []
        self.lanedef = {}
        self.depth = 0
        self.timeout = timeout
        self.covers = []
        self.cur_path = TRUE

    def fact(self, f):
        if f is None or z3.is_true(f):
            return
        self.facts.append(f)

    def instantiate(self, arr, idxs):
        if self.depth >= 4:
            return
        key = (id(arr),) + tuple(x.get_id() for x in idxs)
        if key in self.inst_done:
            return
        self.inst_done.add(key)
        self.keep.append((arr, idxs))
        self.depth += 1
        try:
            for g in arr.gens:
                r = g(idxs)
                if r is not None:
                    self.fact(r)
        finally:
            self.depth -= 1


ARITH_FOLD = {'+', '-', '*'}
