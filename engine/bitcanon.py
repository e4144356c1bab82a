"""Decision procedure for equality of straight-line bit-vector terms: both sides are
   rewritten to one canonical hash-consed form per bit (exclusive-or sets over atoms;
   products are atoms over canonical operands).  Equal forms imply equal functions; it
   never claims anything when the forms differ."""
import z3
from vcg import is_num, num, Unsupported

ONE = 0


class Canon:
    def __init__(self):
        self.ids = {('one',): ONE}
        self.level = [0]
        self.isand = [False]
        self.memo = {}
        self.keep = []
        self.zero = frozenset()
        self.one = frozenset([ONE])

    def atom(self, key, level=0, isand=False):
        i = self.ids.get(key)
        if i is None:
            i = self.ids[key] = len(self.level)
            self.level.append(level)
            self.isand.append(isand)
        return i

    def top(self, s):
        """(level of the highest product directly in s or -1, highest level in s)"""
        la = lv = -1
        for a in s:
            if a != ONE:
                lv = max(lv, self.level[a])
                if self.isand[a]:
                    la = max(la, self.level[a])
        return la, lv

    def wrap(self, s):
        c = ONE in s
        k = s - self.one if c else s
        if len(k) == 1 and not self.isand[next(iter(k))]:
            return s
        a = self.atom(('x', k), self.top(k)[1])
        return frozenset([a, ONE]) if c else frozenset([a])

    def xor(self, x, y):
        if not x:
            return y
        if not y:
            return x
        if len(x) == 1 and ONE in x or len(y) == 1 and ONE in y:
            return x ^ y
        xa, xl = self.top(x)
        ya, yl = self.top(y)
        if xa >= 0 and xa <= yl:
            x = self.wrap(x)
        if ya >= 0 and ya <= xl:
            y = self.wrap(y)
        return x ^ y

    def not_(self, x):
        return x ^ self.one

    def and_(self, x, y):
        if not x or not y:
            return self.zero
        if x == self.one:
            return y
        if y == self.one:
            return x
        if x == y:
            return x
        if x ^ y == self.one:
            return self.zero
        if self.top(x)[0] >= 0:
            x = self.wrap(x)
        if self.top(y)[0] >= 0:
            y = self.wrap(y)
        a, b = sorted((tuple(sorted(x)), tuple(sorted(y))))
        return frozenset([self.atom(('and', a, b), 1 + max(self.top(x)[1], self.top(y)[1]), True)])

    def or_(self, x, y):
        return self.not_(self.and_(self.not_(x), self.not_(y)))

    def bits(self, t):
        """least significant first"""
        stack = [t]
        while stack:
            u = stack[-1]
            i = u.get_id()
            if i in self.memo:
                stack.pop()
                continue
            kids = [c for c in u.children() if z3.is_bv(c)] if not self.leafish(u) else []
            miss = [c for c in kids if c.get_id() not in self.memo]
            if miss:
                stack.extend(miss)
                continue
            self.memo[i] = self.one_term(u)
            self.keep.append(u)
            stack.pop()
        return self.memo[t.get_id()]

    def leafish(self, u):
        return u.decl().kind() == z3.Z3_OP_UNINTERPRETED

    def one_term(self, u):
        n = u.size()
        if is_num(u):
            return [self.one if num(u) >> k & 1 else self.zero for k in range(n)]
        k = u.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            return [frozenset([self.atom(('v', u.get_id(), b))]) for b in range(n)]
        c = [self.memo[x.get_id()] for x in u.children() if z3.is_bv(x)]
        if k == z3.Z3_OP_BXOR:
            r = c[0]
            for d in c[1:]:
                r = [self.xor(a, b) for a, b in zip(r, d)]
            return r
        if k == z3.Z3_OP_BAND or k == z3.Z3_OP_BOR:
            f = self.and_ if k == z3.Z3_OP_BAND else self.or_
            r = c[0]
            for d in c[1:]:
                r = [f(a, b) for a, b in zip(r, d)]
            return r
        if k == z3.Z3_OP_BNOT:
            return [self.not_(a) for a in c[0]]
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = u.params()
            return c[0][lo:hi + 1]
        if k == z3.Z3_OP_CONCAT:
            r = []
            for d in reversed(c):
                r += d
            return r
        if k == z3.Z3_OP_ZERO_EXT:
            return c[0] + [self.zero] * (n - len(c[0]))
        if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR) and is_num(u.arg(1)):
            s = min(num(u.arg(1)), n)
            return [self.zero] * s + c[0][:n - s] if k == z3.Z3_OP_BSHL else c[0][s:] + [self.zero] * s
        if k == z3.Z3_OP_BASHR and is_num(u.arg(1)):
            s = min(num(u.arg(1)), n)
            return c[0][s:] + [c[0][-1]] * s
        if k == z3.Z3_OP_SIGN_EXT:
            return c[0] + [c[0][-1]] * (n - len(c[0]))
        if k == z3.Z3_OP_ROTATE_LEFT:
            s = u.params()[0] % n
            return [c[0][(b - s) % n] for b in range(n)]
        if k == z3.Z3_OP_ROTATE_RIGHT:
            s = u.params()[0] % n
            return [c[0][(b + s) % n] for b in range(n)]
        raise Unsupported(f'bit canonicaliser: operator {u.decl().name()}')

    def equal(self, a, b):
        return [self.wrap(x) for x in self.bits(a)] == [self.wrap(x) for x in self.bits(b)]
