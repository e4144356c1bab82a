"""Symbolic executor / VC generator (see vcg.py)."""
import sys, time
import z3
from vcg import *
import vcg
from goto import Ty, BOOL, VOID

sys.setrecursionlimit(20000)
U8 = Ty('bv', w=8)


class Frame:
    def __init__(self, fid, fname, callpath):
        self.id, self.fname, self.callpath = fid, fname, callpath
        self.ret = (fid, '$ret')


class LoopCtx:
    def __init__(self, path):
        self.path = path
        self.idx = {}


class Exec:
    def __init__(self, prog, cfg, contracts=None, loops=None, ctx=None, name=''):
        self.prog, self.cfg = prog, cfg
        self.contracts = contracts or {}
        self.loops = loops or {}
        self.ctx = ctx or Ctx()
        self.objty = {}
        self._lay = {}
        self.nframes = 0
        self.frames = []           # frames being executed
        self.loopstack = [LoopCtx(())]
        self.wlogs = []            # write logs of enclosing loops
        self.name = name
        self.ghosts = set()
        self.inlined = set()
        self.used_contracts = set()
        self.loops_seen = {}
        self.checked_bounds = True
        self.site = ''
        self.readonly = set()
        self.maxunroll = 70
        self.on_write = None
        self.ptrstatic = {}
        self.loopmemo = {}
        self.lanesrc, self.laneinfo, self.bytes_of = {}, {}, {}
        self._evc = {}
        self.genlog = []
        self.blocked = {}          # object -> row length: byte arrays addressed as rows of equal length
        self.optional = set()      # annotated loops that need not occur

    # ------------------------------------------------------------ obligations
    def oblige(self, st, label, goal, kind='assert', info=None):
        if z3.is_true(goal):
            ob = Obligation(f'{self.name}/{label}', goal, st.path, len(self.ctx.facts), kind, info)
            ob.status = 'proved'
            self.ctx.obls.append(ob)
            return ob
        ob = Obligation(f'{self.name}/{label}', goal, st.path, len(self.ctx.facts), kind, info)
        self.ctx.obls.append(ob)
        return ob

    def assume(self, st, f):
        self.ctx.fact(Implies(st.path, f))

    # ------------------------------------------------------------ layout
    def const_int(self, e):
        if e['id'] == 'constant':
            return self.const_val(e)
        t = self.ev(e, None, None)
        t = z3.simplify(t)
        if not is_num(t):
            raise Unsupported('non-constant size')
        return num(t)

    def const_val(self, e):
        v = e['namedSub']['value']['id']
        ty = self.prog.ty(e['namedSub']['type'])
        x = int(v, 16)
        return x

    def dim(self, n, st, frame):
        if isinstance(n, int):
            return n
        if z3.is_expr(n):
            return num(n) if is_num(n) else n
        if n['id'] == 'constant':
            return self.const_val(n)
        t = self.ev(n, st, frame)
        if is_num(t):
            return num(t)
        t = z3.simplify(t)
        if is_num(t):
            return num(t)
        return zext(t, IDX) if t.size() < IDX else t

    def layout(self, ty, st=None, frame=None):
        key = id(ty)
        r = self._lay.get(key)
        if r is not None:
            return r[0]
        r = self._layout(ty, st, frame)
        self._lay[key] = (r, ty)
        return r

    def _layout(self, ty, st, frame):
        k = ty.k
        if k in ('bv', 'bool', 'ptr'):
            return [Leaf((), [], ty)]
        if k == 'vec':
            return [Leaf((), [ty.w], U8)]
        if k == 'array':
            n = self.dim(ty.n, st, frame)
            if ty.to.k == 'vec':
                return [Leaf((), [n * ty.to.w], U8)]
            return [Leaf(l.path, [n] + l.dims, l.ty) for l in self._layout(ty.to, st, frame)]
        if k == 'struct':
            out = []
            for nm, ft in ty.fields:
                for l in self._layout(ft, st, frame):
                    out.append(Leaf((nm,) + l.path, l.dims, l.ty))
            return out
        if k == 'union':
            # only accessed through one member in supported code
            out = []
            for nm, ft in ty.fields:
                for l in self._layout(ft, st, frame):
                    out.append(Leaf((nm,) + l.path, l.dims, l.ty))
            return out
        raise Unsupported(f'layout of {ty}')

    def sizeof(self, ty):
        k = ty.k
        if k == 'bv':
            return ty.w // 8
        if k == 'bool':
            return 1
        if k == 'ptr':
            return 8
        if k == 'vec':
            return ty.w
        if k == 'array':
            n = self.dim(ty.n, None, None)
            return n * self.sizeof(ty.to)
        if k == 'struct':
            # natural alignment
            off, al = 0, 1
            for nm, ft in ty.fields:
                a = self.alignof(ft)
                al = max(al, a)
                off = (off + a - 1) // a * a + self.sizeof(ft)
            return (off + al - 1) // al * al
        raise Unsupported(f'sizeof {ty}')

    def alignof(self, ty):
        if ty.k == 'array':
            return self.alignof(ty.to)
        if ty.k == 'struct':
            return max([1] + [self.alignof(t) for _, t in ty.fields])
        if ty.k == 'vec':
            return 32
        return self.sizeof(ty)

    # ------------------------------------------------------------ objects
    def new_leafval(self, name, leaf):
        nd = len(leaf.dims)
        if leaf.ty.k == 'ptr':
            if nd == 0:
                return Ptr('UNINIT', (), [], self.prog.pointee(leaf.ty))
            return PtrArr(nd)
        w = 'bool' if leaf.ty.k == 'bool' else leaf.ty.w
        if nd == 0:
            return fresh(w, name)
        return Base(name, nd, w)

    def new_obj(self, st, obj, ty, frame=None, init=True):
        self.objty[obj] = ty
        lay = self.layout(ty, st, frame)
        for l in lay:
            st.mem[(obj, l.path)] = self.new_leafval(f'{obj[-1].split("::")[-1]}{"".join("." + p for p in l.path)}', l)
            self.log((obj, l.path))
        return Ptr(obj, (), [], ty)

    def leafinfo(self, obj, path):
        ty = self.objty[obj]
        for l in self.layout(ty):
            if l.path == path:
                return l
        raise Unsupported(f'no leaf {obj} {path}')

    def leaves_under(self, obj, path):
        n = len(path)
        return [l for l in self.layout(self.objty[obj]) if l.path[:n] == path]

    def log(self, key):
        for w in self.wlogs:
            w.add(key)

    def symobj(self, ident, st, frame):
        s = self.prog.syms.get(ident)
        if s is None or s.get('isStaticLifetime'):
            obj = ('G', ident)
            if obj not in self.objty:
                self.init_global(obj, ident, st)
            elif (obj, self.layout(self.objty[obj])[0].path) not in st.mem and self.objty[obj].k != 'code':
                self.init_global(obj, ident, st)
            return obj
        return (frame.id, ident)

    def init_global(self, obj, ident, st):
        s = self.prog.syms[ident]
        ty = self.prog.ty(s['type'])
        self.objty[obj] = ty
        const = False
        t = s['type']
        # constness: on array element type or the type itself
        def isconst(t):
            return t.get('namedSub', {}).get('#constant', {}).get('id') in ('1', 1) or \
                (t['id'] == 'array' and isconst(t['sub'][0]))
        v = s.get('value')
        lay = self.layout(ty)
        if (isconst(t) or self.prog.never_written(ident)) and v and v.get('id') not in (None, 'nil', '') and ty.k in ('array', 'bv'):
            if ty.k == 'bv':
                st.mem[(obj, ())] = self.ev(v, st, None)
                self.keepglob(obj, st)
                return
            if ty.to.k == 'bv':
                vals = [num(z3.simplify(self.ev(x, st, None))) for x in v['sub']]
                st.mem[(obj, ())] = Table(vals, ty.to.w)
                return
        for l in lay:
            st.mem[(obj, l.path)] = self.new_leafval(ident, l)

    def keepglob(self, obj, st):
        pass

    # ------------------------------------------------------------ lvalues
    def actual_ty(self, p):
        """declared type at the location of pointer p"""
        ty = self.objty[p.obj]
        path, nidx = list(p.path), len(p.idxs)
        while True:
            if ty.k == 'struct' or ty.k == 'union':
                if not path:
                    return ty
                f = path.pop(0)
                ty = dict(ty.fields)[f]
                continue
            if ty.k == 'array' and nidx > 0:
                nidx -= 1
                if ty.to.k == 'vec':
                    return U8 if False else ty.to
                ty = ty.to
                continue
            if ty.k == 'vec' and nidx > 0:
                return ty
            return ty

    def lval(self, e, st, frame):
        i = e['id']
        if i == 'symbol':
            ident = e['namedSub']['identifier']['id']
            obj = self.symobj(ident, st, frame)
            ty = self.objty.get(obj)
            if ty is None:
                ty = self.prog.ty(e['namedSub']['type'])
                self.objty[obj] = ty
            return Ptr(obj, (), [], ty)
        if i == 'member':
            b = self.lval(e['sub'][0], st, frame)
            f = e['namedSub']['component_name']['id']
            ty = self.prog.ty(e['namedSub']['type'])
            if b.ty.k == 'vec':
                return self.byte_view(b, ty)
            return Ptr(b.obj, b.path + (f,), b.idxs, ty)
        if i == 'index':
            b = self.lval(e['sub'][0], st, frame)
            ie = e['sub'][1]
            iv = self.to_idx(self.ev(ie, st, frame), ie)
            et = b.ty.to if b.ty.k == 'array' else self.prog.ty(e['namedSub']['type'])
            if b.ty.tag == 'byteview':
                d = arith('*', iv, I(self.sizeof(et)))
                n = self.sizeof(b.ty) - self.sizeof(et)
                self.oblige(st, f'in-bounds view {self.site}', z3.ULE(iv, I(self.dim(b.ty.n, None, None) - 1)), 'safety') if not (is_num(d) and num(d) <= n) else None
                return Ptr(b.obj, b.path, b.idxs[:-1] + [arith('+', b.idxs[-1], d)], et)
            if et.k == 'vec':
                iv = arith('*', iv, I(et.w))
            return Ptr(b.obj, b.path, b.idxs + [iv], et)
        if i == 'dereference':
            p = self.ev(e['sub'][0], st, frame)
            if not isinstance(p, Ptr):
                raise Unsupported('dereference of non-pointer')
            ty = self.prog.ty(e['namedSub']['type'])
            if p.obj in ('UNINIT', 'NULL'):
                self.oblige(st, f'valid-pointer:{self.site}', FALSE, 'safety')
                raise Unsupported('dereference of invalid pointer')
            return Ptr(p.obj, p.path, p.idxs, ty)
        if i == 'typecast':
            return self.lval(e['sub'][0], st, frame)
        raise Unsupported(f'lvalue {i}')

    def byte_view(self, b, ty):
        """a member of a union that overlays a vector register"""
        ls = self.leaves_under(b.obj, b.path)
        if len(ls) != 1 or ls[0].ty.k != 'bv' or ls[0].ty.w != 8:
            raise Unsupported('vector view of non-byte object')
        ix = b.idxs + [I(0)] if len(ls[0].dims) == len(b.idxs) + 1 else b.idxs
        if ty.k == 'array':
            ty = Ty('array', to=ty.to, n=ty.n, tag='byteview')
        return Ptr(b.obj, b.path, ix, ty)

    def to_idx(self, t, e):
        if t.size() == IDX:
            return t
        ty = self.prog.ty(e['namedSub']['type'])
        return sext(t, IDX) if ty.signed else zext(t, IDX)

    def bounds(self, st, obj, path, idxs, span=1):
        if not self.checked_bounds:
            return
        l = self.leafinfo_prefix(obj, path)
        for k, ix in enumerate(idxs):
            d = l.dims[k]
            last = (k == len(idxs) - 1)
            s = span if last else 1
            if isinstance(d, int):
                if is_num(ix):
                    if num(ix) + s <= d:
                        continue
                    goal = FALSE
                else:
                    if d >= (1 << 60):
                        continue
                    if s == 1:
                        goal = z3.ULT(ix, I(d))
                    else:
                        goal = z3.ULE(ix, I(d - s)) if d >= s else FALSE
            else:
                goal = z3.ULT(ix, d) if s == 1 else And(z3.ULE(I(s), d), z3.ULE(ix, d - I(s)))
            key = (str(st.path.get_id()), goal.get_id())
            if key in self._bseen:
                continue
            self._bseen[key] = (st.path, goal)
            self.oblige(st, f'in-bounds {obj[-1].split("::")[-1]}{"".join("." + p for p in path)}[{k}] {self.site}', goal, 'safety')

    _bseen = {}

    def leafinfo_prefix(self, obj, path):
        ls = self.leaves_under(obj, path)
        if not ls:
            raise Unsupported(f'no leaf {obj} {path}')
        return ls[0]

    def leaf(self, st, ref):
        """ref: Ptr or (obj,path) -> Arr (sub-array at ptr idxs) or term"""
        if isinstance(ref, Ptr):
            v = st.mem[(ref.obj, ref.path)]
            return sub(v, ref.idxs) if isinstance(v, Arr) else v
        return st.mem[ref]

    def term(self, st, ref):
        v = st.mem[ref]
        return v

    def read(self, lv, st):
        ty = lv.ty
        key = (lv.obj, lv.path)
        if ty.k in ('bv', 'bool', 'ptr'):
            v = st.mem.get(key)
            if v is None:
                # uninitialised / first touch of a typed object
                ls = self.leaves_under(lv.obj, lv.path)
                if len(ls) == 1 and ls[0].path == lv.path:
                    v = st.mem[key] = self.new_leafval(str(lv.obj[-1]), ls[0])
                else:
                    raise Unsupported(f'read view mismatch {lv}')
            if isinstance(v, Arr):
                if len(lv.idxs) != v.nd:
                    raise Unsupported(f'partial index read {lv}')
                if ty.k == 'bv' and v.w != ty.w:
                    return self.read_bytes_as(lv, st, v, ty)
                self.bounds(st, lv.obj, lv.path, lv.idxs)
                return v.read(self.ctx, lv.idxs)
            if isinstance(v, PtrArr):
                self.bounds(st, lv.obj, lv.path, lv.idxs)
                if v.static is None:
                    raise Unsupported('read of uninitialised pointer array')
                o, p, n, t = v.static
                return Ptr(o, p, [c.read(self.ctx, lv.idxs) for c in v.comps], t)
            if isinstance(v, Ghost):
                return v
            if ty.k == 'bv' and z3.is_bv(v) and v.size() != ty.w:
                if v.size() > ty.w and not lv.idxs:
                    return trunc(v, ty.w)     # little endian low part
                raise Unsupported('scalar view mismatch')
            return v
        if ty.k == 'vec':
            v = st.mem[key]
            if not isinstance(v, Arr) or v.w != 8:
                raise Unsupported('vector view of non-byte object')
            if v.nd == len(lv.idxs) + 1 and True:
                # whole vec variable (dims [w])
                self.bounds(st, lv.obj, lv.path, lv.idxs + [I(0)], span=ty.w)
                return sub(v, lv.idxs)
            if v.nd == len(lv.idxs):
                self.bounds(st, lv.obj, lv.path, lv.idxs, span=ty.w)
                pre, b = lv.idxs[:-1], lv.idxs[-1]
                if not pre and is_num(b) and isinstance(v, Lanes):
                    return v.part(self, num(b), ty.w)
                r = Lam(lambda c, ix, v=v, pre=pre, b=b: v.read(c, pre + [arith('+', b, ix[0])]), 1, 8)
                r.rec = ('mem', v, pre, b)
                return r
            raise Unsupported('vector view shape')
        if ty.k in ('struct', 'array', 'union'):
            out = {}
            n = len(lv.path)
            for l in self.leaves_under(lv.obj, lv.path):
                v = st.mem[(lv.obj, l.path)]
                if lv.idxs and isinstance(v, Arr):
                    self.bounds(st, lv.obj, l.path, lv.idxs)
                    v = sub(v, lv.idxs) if v.nd > len(lv.idxs) else v.read(self.ctx, lv.idxs)
                out[l.path[n:]] = v
            return StructVal(out, ty)
        raise Unsupported(f'read of type {ty}')

    def read_bytes_as(self, lv, st, v, ty):
        if v.w == 8 and ty.w in (16, 32, 64):
            nb = ty.w // 8
            self.bounds(st, lv.obj, lv.path, lv.idxs, span=nb)
            pre, b = lv.idxs[:-1], lv.idxs[-1]
            if not pre and is_num(b) and isinstance(v, Lanes):
                bs = v.b()[num(b):num(b) + nb]
            else:
                bs = [v.read(self.ctx, pre + [arith('+', b, I(k))]) for k in range(nb)]
            r = z3.Concat(*reversed(bs))
            self.bytes_of[r.get_id()] = (bs, r)
            return r
        raise Unsupported('array element view mismatch')

    def write(self, lv, val, st):
        ty = lv.ty
        key = (lv.obj, lv.path)
        if lv.obj in self.readonly:
            self.oblige(st, f'frame {lv.obj[-1]} {self.site}', FALSE, 'frame')
        if ty.k in ('bv', 'bool', 'ptr'):
            cur = st.mem.get(key)
            if cur is None:
                ls = self.leaves_under(lv.obj, lv.path)
                if len(ls) == 1 and ls[0].path == lv.path:
                    cur = st.mem[key] = self.new_leafval(str(lv.obj[-1]), ls[0])
                else:
                    raise Unsupported(f'write view mismatch {lv}')
            self.log(key)
            if isinstance(cur, Arr):
                if len(lv.idxs) != cur.nd:
                    raise Unsupported('partial index write')
                if ty.k == 'bv' and cur.w != ty.w:
                    if cur.w == 8 and ty.w in (16, 32, 64) and cur.nd == 1 and is_num(lv.idxs[0]) and self.objty[lv.obj].k == 'vec':
                        nb = ty.w // 8
                        self.bounds(st, lv.obj, lv.path, lv.idxs, span=nb)
                        bs = self.bytes_of[val.get_id()][0] if val.get_id() in self.bytes_of else [z3.simplify(z3.Extract(8 * k + 7, 8 * k, val)) for k in range(nb)]
                        st.mem[key] = splice(self, cur, self.objty[lv.obj].w, num(lv.idxs[0]), Lanes(bs))
                        return
                    raise Unsupported('element width mismatch on write')
                self.bounds(st, lv.obj, lv.path, lv.idxs)
                st.mem[key] = Store(cur, lv.idxs, val)
            elif isinstance(cur, PtrArr):
                self.bounds(st, lv.obj, lv.path, lv.idxs)
                stt = (val.obj, val.path, len(val.idxs), val.ty)
                self.ptrstatic[key] = stt
                if cur.static is None:
                    comps = [Base('ptrix', cur.nd, IDX) for _ in val.idxs]
                else:
                    if cur.static[:3] != stt[:3]:
                        raise Unsupported('pointer array with mixed targets')
                    comps = cur.comps
                st.mem[key] = PtrArr(cur.nd, stt, [Store(c, lv.idxs, x) for c, x in zip(comps, val.idxs)])
            else:
                if lv.idxs:
                    raise Unsupported('indexed write to scalar')
                if z3.is_expr(val) and z3.is_expr(cur) and z3.is_bv(cur) and z3.is_bv(val) and cur.size() != val.size():
                    raise Unsupported('scalar width mismatch on write')
                st.mem[key] = val
            return
        if ty.k == 'vec':
            cur = st.mem.get(key)
            if cur is None:
                cur = self.new_leafval(str(lv.obj[-1]), self.leafinfo(lv.obj, lv.path))
            self.log(key)
            if cur.nd == len(lv.idxs) + 1:
                self.bounds(st, lv.obj, lv.path, lv.idxs + [I(0)], span=ty.w)
                st.mem[key] = val if not lv.idxs else Store(cur, lv.idxs, val)
                return
            if cur.nd == len(lv.idxs):
                self.bounds(st, lv.obj, lv.path, lv.idxs, span=ty.w)
                pre, b = lv.idxs[:-1], lv.idxs[-1]
                if not pre and is_num(b) and self.objty[lv.obj].k == 'vec':
                    st.mem[key] = splice(self, cur, self.objty[lv.obj].w, num(b), lanes(self, val, ty.w))
                    return
                st.mem[key] = self.overlay(cur, pre, b, I(ty.w), lambda c, k: val.read(c, [k]))
                return
            raise Unsupported('vector store shape')
        if ty.k in ('struct', 'array', 'union'):
            n = len(lv.path)
            for l in self.leaves_under(lv.obj, lv.path):
                k2 = (lv.obj, l.path)
                v = val.leaves[l.path[n:]]
                self.log(k2)
                if not lv.idxs:
                    st.mem[k2] = v
                else:
                    self.bounds(st, lv.obj, l.path, lv.idxs)
                    st.mem[k2] = Store(st.mem[k2], lv.idxs, v)
            return
        raise Unsupported(f'write of type {ty}')

    def overlay(self, cur, pre, b, n, fn):
        """cur with elements pre+[b..b+n) replaced by fn(ctx, k)"""
        def rd(c, ix, cur=cur, pre=pre, b=b, n=n, fn=fn):
            conds = [Eq(x, y) for x, y in zip(ix[:-1], pre)]
            off = arith('-', ix[-1], b)
            if is_num(off) and is_num(n):
                inr = z3.BoolVal(num(off) < num(n))
            else:
                inr = z3.ULT(off, n)
                if is_num(b) and num(b) == 0 and is_num(n) and False:
                    pass
            cnd = And(*conds, inr)
            if z3.is_false(cnd):
                return cur.read(c, ix)
            v = fn(c, off)
            if z3.is_true(cnd):
                return v
            return Ite(cnd, v, cur.read(c, ix))
        return Lam(rd, cur.nd, cur.w)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, frame):
        i = e['id']
        m = getattr(self, 'e_' + EXPR.get(i, ''), None)
        if m is None:
            raise Unsupported(f'expression {i}')
        return m(e, st, frame)

    def e_symbol(self, e, st, frame):
        lv = self.lval(e, st, frame)
        return self.read(lv, st)

    def e_mem(self, e, st, frame):
        return self.read(self.lval(e, st, frame), st)

    def e_constant(self, e, st, frame):
        k = e.get('__c')
        if k is not None:
            return k
        ty = self.prog.ty(e['namedSub']['type'])
        v = e['namedSub']['value']['id']
        if ty.k == 'bv':
            r = bv(int(v, 16), ty.w)
        elif ty.k == 'bool':
            r = z3.BoolVal(v == 'true')
        elif ty.k == 'ptr':
            r = NULL
        else:
            raise Unsupported('constant type')
        e['__c'] = r
        return r

    def e_typecast(self, e, st, frame):
        s = e['sub'][0]
        to = self.prog.ty(e['namedSub']['type'])
        v = self.ev(s, st, frame)
        return self.cast(v, self.prog.ty(s['namedSub']['type']), to)

    def cast(self, v, frm, to):
        if to.k == 'vec' and frm.k == 'vec':
            return v
        if to.k == 'ptr':
            if isinstance(v, Ptr):
                if v.obj in ('NULL', 'UNINIT'):
                    return v
                pt = self.prog.pointee(to)
                act = self.actual_ty(v)
                p = v
                if pt.k == 'void':
                    return p.with_ty(pt)
                # descend into arrays when viewed as element pointer
                while act.k == 'array' and pt.k != 'array':
                    et = act.to
                    p = Ptr(p.obj, p.path, p.idxs + [I(0)], et)
                    act = et
                return p.with_ty(pt)
            if z3.is_expr(v) and is_num(v) and num(v) == 0:
                return NULL
            raise Unsupported('integer to pointer cast')
        if isinstance(v, Ptr):
            raise Unsupported('pointer to integer cast')
        if to.k == 'void':
            return v
        if to.k == 'bool':
            if z3.is_bool(v):
                return v
            if v.decl().kind() == z3.Z3_OP_ITE and is_num(v.arg(1)) and is_num(v.arg(2)):
                a, b = num(v.arg(1)), num(v.arg(2))
                if a and not b:
                    return v.arg(0)
                if b and not a:
                    return Not(v.arg(0))
            return Not(Eq(v, bv(0, v.size())))
        if to.k == 'bv':
            if z3.is_bool(v):
                return Ite(v, bv(1, to.w), bv(0, to.w))
            if to.w <= v.size():
                return trunc(v, to.w)
            if frm.k == 'bv' and frm.signed:
                return sext(v, to.w)
            return zext(v, to.w)
        if to.k == frm.k:
            return v
        raise Unsupported(f'cast to {to}')

    def e_arith(self, e, st, frame):
        op = e['id']
        subs = e['sub']
        tys = [self.prog.ty(s['namedSub']['type']) for s in subs]
        if any(t.k == 'ptr' for t in tys):
            return self.ptr_arith(op, e, subs, tys, st, frame)
        vs = [self.ev(s, st, frame) for s in subs]
        r = vs[0]
        for v in vs[1:]:
            r = arith(op, r, v)
        return r

    def ptr_arith(self, op, e, subs, tys, st, frame):
        vs = [self.ev(s, st, frame) for s in subs]
        if tys[0].k == 'ptr' and tys[1].k == 'ptr':
            a, b = vs
            if op == '-' and a.obj == b.obj and a.path == b.path and a.idxs and len(a.idxs) == len(b.idxs):
                return arith('-', a.idxs[-1], b.idxs[-1])
            raise Unsupported('pointer difference')
        pi = 0 if tys[0].k == 'ptr' else 1
        p, n = vs[pi], self.to_idx(vs[1 - pi], subs[1 - pi])
        if p.obj in ('NULL', 'UNINIT'):
            raise Unsupported('arithmetic on invalid pointer')
        if is_num(n) and num(n) == 0:
            return p
        view = self.prog.pointee(tys[pi])
        act = self.actual_ty(p)
        if act.k == 'vec':
            act = U8
            scale = self.sizeof(view)
        elif act.k == 'bv' and act.w == 8:
            scale = self.sizeof(view) if view.k != 'void' else 1
        else:
            scale = 1
            if view.k not in ('void',) and self.sizeof(view) != self.sizeof(act):
                raise Unsupported('pointer arithmetic through differing view')
        if not p.idxs:
            raise Unsupported('pointer arithmetic on scalar object')
        d = arith('*', n, I(scale)) if scale != 1 else n
        if p.obj in self.blocked:
            S = self.blocked[p.obj]
            e1, c1 = self.rows_of(d, S, st)
            if op == '-':
                raise Unsupported('backward arithmetic on rows')
            c2 = p.idxs[-1]
            if not is_num(c2):
                raise Unsupported('symbolic position within a row')
            c = c1 + num(c2)
            row = arith('+', arith('+', p.idxs[-2], e1), I(c // S))
            return Ptr(p.obj, p.path, p.idxs[:-2] + [row, I(c % S)], p.ty)
        last = arith(op, p.idxs[-1], d)
        return Ptr(p.obj, p.path, p.idxs[:-1] + [last], p.ty)

    def rows_of(self, t, S, st):
        """offset t as (row, constant position): t = row * S + position, exactly"""
        if is_num(t):
            return I(num(t) // S), num(t) % S
        k = t.decl().kind()
        if k == z3.Z3_OP_BMUL and t.num_args() == 2:
            a, b = t.arg(0), t.arg(1)
            if is_num(a):
                a, b = b, a
            if is_num(b) and num(b) % S == 0:
                return arith('*', a, bv(num(b) // S, a.size())), 0
        if k == z3.Z3_OP_BADD:
            r, c = None, 0
            for x in t.children():
                rx, cx = self.rows_of(x, S, st)
                rx = rx if rx.size() == t.size() else zext(trunc(rx, t.size()), t.size())
                r = rx if r is None else arith('+', r, rx)
                c += cx
            return r, c
        if k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
            a = t.arg(0)
            w = a.size()
            r, c = self.rows_of(a, S, st)
            if is_num(r):
                raise Unsupported('row offset')
            lim = ((1 << w) - 1 if k == z3.Z3_OP_ZERO_EXT else (1 << (w - 1)) - 1) - c
            r = r if r.size() == w else trunc(r, w)
            self.oblige(st, f'offset does not wrap {self.site}', z3.ULE(r, bv(lim // S, w)), 'safety')
            return zext(r, IDX), c
        raise Unsupported('offset is not a multiple of the row length')

    def e_neg(self, e, st, frame):
        v = self.ev(e['sub'][0], st, frame)
        return bv(-num(v), v.size()) if is_num(v) else -v

    def e_bit(self, e, st, frame):
        vs = [self.ev(s, st, frame) for s in e['sub']]
        op = e['id']
        r = vs[0]
        for v in vs[1:]:
            r = bitop(op, r, v)
        return r

    def e_bitnot(self, e, st, frame):
        v = self.ev(e['sub'][0], st, frame)
        return bv(~num(v), v.size()) if is_num(v) else ~v

    def e_shift(self, e, st, frame):
        a = self.ev(e['sub'][0], st, frame)
        b = self.ev(e['sub'][1], st, frame)
        w = a.size()
        if is_num(b):
            n = num(b)
            op = e['id']
            if n == 0:
                return a
            if is_num(a):
                x = num(a)
                if op == 'shl':
                    return bv(x << n, w)
                if op == 'lshr':
                    return bv(x >> n, w)
                return bv(snum(a) >> n, w)
            if op == 'ashr' and a.decl().kind() == z3.Z3_OP_ZERO_EXT:
                op = 'lshr'
            return {'shl': lambda: a << n, 'lshr': lambda: z3.LShR(a, n), 'ashr': lambda: a >> n}[op]()
        b = zext(b, w) if b.size() < w else trunc(b, w)
        return {'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b}[e['id']]()

    def e_divmod(self, e, st, frame):
        a = self.ev(e['sub'][0], st, frame)
        b = self.ev(e['sub'][1], st, frame)
        signed = self.prog.ty(e['sub'][0]['namedSub']['type']).signed
        w = a.size()
        op = e['id']
        if signed and top0(a) and top0(b):
            signed = False
        if is_num(a) and is_num(b) and num(b) != 0 and not signed:
            return bv(num(a) // num(b) if op == '/' else num(a) % num(b), w)
        if st is not None and not is_num(b):
            self.oblige(st, f'division-by-zero {self.site}', Not(Eq(b, bv(0, w))), 'safety')
        if not is_num(b):
            return self.uf_divmod(op, signed, a, b, st)
        if op == 'mod' and is_num(b) and num(b) == 127 and (not signed or top0b(a)):
            import math127
            return zext(math127.mod127(self.ctx, a), w)
        if signed and top0b(a) and top0(b):
            signed = False
        if signed:
            return (a / b) if op == '/' else z3.SRem(a, b)
        return z3.UDiv(a, b) if op == '/' else z3.URem(a, b)

    def uf_divmod(self, op, signed, a, b, st):
        w = a.size()
        if not signed and w <= 64:
            # one function for every operand width: the value does not depend on it
            x, y = zext(a, 64), zext(b, 64)
            f = z3.Function('DIVU' if op == '/' else 'MODU', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
            r = f(x, y)
            if op == 'mod':
                self.ctx.fact(Or(Eq(y, bv(0, 64)), And(z3.ULT(r, y), z3.ULE(r, x))))
            else:
                self.ctx.fact(Or(Eq(y, bv(0, 64)), z3.ULE(r, x)))
            return trunc(r, w)
        f = z3.Function(f'{"DIV" if op == "/" else "MOD"}{"S" if signed else "U"}{w}',
                        z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))
        return f(a, b)

    def e_cmp(self, e, st, frame):
        ty = self.prog.ty(e['sub'][0]['namedSub']['type'])
        a = self.ev(e['sub'][0], st, frame)
        b = self.ev(e['sub'][1], st, frame)
        op = e['id']
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_cmp(op, a, b)
        if op == '=':
            return Eq(a, b)
        if op == 'notequal':
            return Not(Eq(a, b))
        if z3.is_bool(a):
            raise Unsupported('ordered bool comparison')
        if is_num(a) and is_num(b):
            x, y = (snum(a), snum(b)) if ty.signed else (num(a), num(b))
            return z3.BoolVal({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
        if ty.signed and not (top0(a) and top0(b)):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        return {'<': z3.ULT, '<=': z3.ULE, '>': z3.UGT, '>=': z3.UGE}[op](a, b)

    def ptr_cmp(self, op, a, b):
        if a.obj == 'NULL' or b.obj == 'NULL':
            same = a.obj == b.obj
            if op == '=':
                return z3.BoolVal(same)
            if op == 'notequal':
                return z3.BoolVal(not same)
            raise Unsupported('null comparison')
        if a.obj == b.obj and a.path == b.path and len(a.idxs) == len(b.idxs):
            if op in ('=', 'notequal'):
                r = And(*[Eq(x, y) for x, y in zip(a.idxs, b.idxs)])
                return r if op == '=' else Not(r)
            x, y = a.idxs[-1], b.idxs[-1]
            return {'<': z3.ULT, '<=': z3.ULE, '>': z3.UGT, '>=': z3.UGE}[op](x, y)
        if a.obj != b.obj and op in ('=', 'notequal'):
            return z3.BoolVal(op == 'notequal')
        raise Unsupported('pointer comparison')

    def e_bool(self, e, st, frame):
        # operands are evaluated under the outcome of the previous ones (short circuit)
        conj = e['id'] == 'and'
        acc = TRUE if conj else FALSE
        for s in e['sub']:
            v = self.ev_under(s, st, frame, acc if conj else Not(acc))
            acc = And(acc, v) if conj else Or(acc, v)
        return acc

    def e_implies(self, e, st, frame):
        a = self.ev(e['sub'][0], st, frame)
        return Implies(a, self.ev_under(e['sub'][1], st, frame, a))

    def e_not(self, e, st, frame):
        return Not(self.ev(e['sub'][0], st, frame))

    def e_if(self, e, st, frame):
        c = self.ev(e['sub'][0], st, frame)
        if not (z3.is_true(c) or z3.is_false(c)):
            c2 = z3.simplify(c)
            if z3.is_true(c2) or z3.is_false(c2):
                c = c2
        if z3.is_true(c):
            return self.ev(e['sub'][1], st, frame)
        if z3.is_false(c):
            return self.ev(e['sub'][2], st, frame)
        sp = st.path if st else None
        a = self.ev_under(e['sub'][1], st, frame, c)
        b = self.ev_under(e['sub'][2], st, frame, Not(c))
        return self.merge_val(c, a, b)

    def ev_under(self, e, st, frame, c):
        if st is None:
            return self.ev(e, st, frame)
        p = st.path
        st.path = And(p, c)
        try:
            return self.ev(e, st, frame)
        finally:
            st.path = p

    def e_addr(self, e, st, frame):
        s = e['sub'][0]
        if s['id'] == 'string_constant' or (s['id'] == 'index' and s['sub'][0]['id'] == 'string_constant'):
            return Ptr('STRING', (), [I(0)], U8)
        if s['id'] == 'dereference':
            return self.ev(s['sub'][0], st, frame)
        lv = self.lval(s, st, frame)
        return lv

    def e_array(self, e, st, frame):
        ty = self.prog.ty(e['namedSub']['type'])
        subs = e['sub']
        key = '__arr'
        if key in e:
            return e[key]
        vals = [self.ev(s, st, frame) for s in subs]
        if all(z3.is_expr(v) for v in vals):
            if all(is_num(v) for v in vals):
                if len({num(v) for v in vals}) == 1:
                    r = StructVal({(): Const(vals[0], 1)}, ty)
                else:
                    r = StructVal({(): Table([num(v) for v in vals], vals[0].size())}, ty)
                e[key] = r
                return r
        if all(isinstance(v, StructVal) for v in vals):
            # array of aggregates: all equal constants only
            l0 = vals[0].leaves
            out = {}
            for p, a in l0.items():
                cs = []
                for v in vals:
                    x = v.leaves[p]
                    if isinstance(x, Const) or (z3.is_expr(x) and is_num(x)):
                        cs.append(num(x.v if isinstance(x, Const) else x))
                    else:
                        raise Unsupported('array literal')
                if len(set(cs)) != 1:
                    raise Unsupported('array literal')
                w = a.w if isinstance(a, Arr) else a.size()
                out[p] = Const(bv(cs[0], w), (a.nd if isinstance(a, Arr) else 0) + 1)
            r = StructVal(out, ty)
            e[key] = r
            return r
        raise Unsupported('array literal')

    def e_array_of(self, e, st, frame):
        ty = self.prog.ty(e['namedSub']['type'])
        v = self.ev(e['sub'][0], st, frame)
        if isinstance(v, StructVal):
            out = {}
            for p, a in v.leaves.items():
                if isinstance(a, Const):
                    out[p] = Const(a.v, a.nd + 1)
                elif z3.is_expr(a):
                    out[p] = Const(a, 1)
                else:
                    raise Unsupported('array_of')
            return StructVal(out, ty)
        return StructVal({(): Const(v, 1)}, ty)

    def e_struct(self, e, st, frame):
        ty = self.prog.ty(e['namedSub']['type'])
        if ty.k == 'vec':
            v = self.ev(e['sub'][0], st, frame)
            return v.leaves[()]
        out = {}
        for (nm, ft), s in zip(ty.fields, e['sub']):
            v = self.ev(s, st, frame)
            if isinstance(v, StructVal):
                for p, a in v.leaves.items():
                    out[(nm,) + p] = a
            elif isinstance(v, Arr):
                out[(nm,)] = v
            else:
                out[(nm,)] = v
        return StructVal(out, ty)

    def e_nondet(self, e, st, frame):
        ty = self.prog.ty(e['namedSub']['type'])
        return fresh('bool' if ty.k == 'bool' else ty.w, 'nondet')

    # ------------------------------------------------------------ merging
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if z3.is_expr(a) and z3.is_expr(b):
            return Ite(c, a, b)
        if isinstance(a, Arr) and isinstance(b, Arr):
            return IteArr(c, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj in ('UNINIT',):
                return b
            if b.obj in ('UNINIT',):
                return a
            if a.obj == b.obj and a.path == b.path and len(a.idxs) == len(b.idxs):
                return Ptr(a.obj, a.path, [Ite(c, x, y) for x, y in zip(a.idxs, b.idxs)], a.ty)
            if a.obj == b.obj and a.path == b.path:
                raise Unsupported('pointer merge depth')
            raise Unsupported('merge of pointers to different objects')
        if isinstance(a, PtrArr) and isinstance(b, PtrArr):
            if a.static is None:
                return b
            if b.static is None:
                return a
            if a.static[:3] != b.static[:3]:
                raise Unsupported('merge of pointer arrays')
            return PtrArr(a.nd, a.static, [x if x is y else IteArr(c, x, y) for x, y in zip(a.comps, b.comps)])
        if isinstance(a, StructVal) and isinstance(b, StructVal):
            return StructVal({k: self.merge_val(c, a.leaves[k], b.leaves[k]) for k in a.leaves}, a.ty)
        if isinstance(a, Ghost) and isinstance(b, Ghost):
            return a.merge(c, b)
        raise Unsupported(f'merge {type(a)} {type(b)}')

    def merge(self, s1, s2):
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        st = State()
        c = s1.path
        st.path = self.or_path(s1.path, s2.path)
        for k in s1.mem:
            if k in s2.mem:
                a, b = s1.mem[k], s2.mem[k]
                if a is b:
                    st.mem[k] = a
                else:
                    try:
                        st.mem[k] = self.merge_val(c, a, b)
                    except Unsupported:
                        if k[0] in self.ghosts:
                            raise
                        st.mem[k] = Ptr('UNINIT', (), [], None) if isinstance(a, Ptr) else None
                        if st.mem[k] is None:
                            raise
            else:
                st.mem[k] = s1.mem[k]
        for k in s2.mem:
            if k not in s1.mem:
                st.mem[k] = s2.mem[k]
        return st

    def or_path(self, a, b):
        # (p and c) or (p and not c)  ->  p
        def conj(x):
            return x.children() if z3.is_and(x) else [x]
        ca, cb = conj(a), conj(b)
        if ca and cb and len(ca) == len(cb):
            if all(z3.eq(x, y) for x, y in zip(ca[:-1], cb[:-1])):
                if z3.eq(Not(ca[-1]), cb[-1]) or z3.eq(ca[-1], Not(cb[-1])):
                    return And(*ca[:-1])
        return Or(a, b)

    # ------------------------------------------------------------ functions
    def call(self, fname, args, st, callpath=(), site=None):
        """execute the real body of fname; returns (ret, state) (state None if it never returns)"""
        ins, heads = self.prog.prep(fname)
        self.nframes += 1
        fr = Frame(f'f{self.nframes}', fname, callpath)
        for (ident, base, ty), v in zip(self.prog.func_params(fname), args):
            obj = (fr.id, ident)
            self.objty[obj] = ty
            if isinstance(v, StructVal):
                for p, x in v.leaves.items():
                    st.mem[(obj, p)] = x
            elif isinstance(v, Arr):
                st.mem[(obj, ())] = v
            else:
                if isinstance(v, Ptr) and v.obj not in ('NULL', 'UNINIT', 'STRING'):
                    v = self.cast(v, None, ty) if ty.k == 'ptr' else v
                st.mem[(obj, ())] = v
            self.log((obj, ()))
        self.inlined.add(fname)
        self.frames.append(fr.id)
        try:
            exits = self.region(fr, {0: st}, 0, len(ins) - 1, set())
        finally:
            self.frames.pop()
        end = exits.get(len(ins) - 1)
        # END_FUNCTION is processed as exit
        if end is None:
            return None, None
        ret = end.mem.get((fr.ret, ()))
        if ret is None and (fr.ret, ('$s',)) in end.mem:
            ret = end.mem[(fr.ret, ('$s',))]
        for k in [k for k in end.mem if k[0][0] == fr.id or k[0] == fr.ret]:
            if k[0] not in getattr(self, 'pinned', ()):
                pass
        return ret, end

    def push(self, pend, pc, st):
        if z3.is_false(st.path):
            return
        pend[pc] = self.merge(pend[pc], st) if pc in pend else st

    def region(self, fr, pend, lo, hi, active, stop_head=None):
        """run from pending states within [lo,hi]; returns {pc: state} for states that
        leave the region; back edges to stop_head are returned under key 'back'."""
        ins, heads = self.prog.prep(fr.fname)
        exits = {}
        while pend:
            pc = min(pend)
            st = pend.pop(pc)
            x = ins[pc]
            iid = x['instructionId']
            if iid == 'END_FUNCTION':
                self.push(exits, pc, st)
                continue
            if pc in heads and pc not in active:
                self.loop(fr, pc, heads[pc], st, pend, exits, lo, hi, active)
                continue
            sl = x.get('sourceLocation', {})
            self.site = f'{fr.fname}:{sl.get("line", "?")}'
            self.ctx.cur_path = st.path
            if iid == 'GOTO':
                g = x.get('guard')
                tgt = x['_t'][0]
                c = TRUE if g is None else self.ev(g, st, fr)
                if not (z3.is_true(c) or z3.is_false(c)):
                    c2 = z3.simplify(c)
                    if z3.is_true(c2) or z3.is_false(c2):
                        c = c2
                outs = []
                if z3.is_true(c):
                    outs = [(tgt, st)]
                elif z3.is_false(c):
                    outs = [(pc + 1, st)]
                else:
                    s2 = st.copy()
                    s2.path = And2(st.path, c)
                    st.path = And2(st.path, Not(c))
                    outs = [(tgt, s2), (pc + 1, st)]
                for t, s in outs:
                    if t == stop_head and t <= pc:
                        if 'back' in exits:
                            exits['back'] = self.merge(exits['back'], s)
                        else:
                            exits['back'] = s
                    elif t < lo or t > hi:
                        self.push(exits, t, s)
                    else:
                        if t <= pc:
                            raise Unsupported('irreducible control flow')
                        self.push(pend, t, s)
                continue
            dead = self.step(x, iid, st, fr)
            if dead:
                continue
            nxt = pc + 1
            if nxt > hi:
                self.push(exits, nxt, st)
            else:
                self.push(pend, nxt, st)
        return exits

    def step(self, x, iid, st, fr):
        if iid in ('SKIP', 'LOCATION', 'DEAD'):
            return False
        if iid == 'DECL':
            s = x['code']['sub'][0]
            ident = s['namedSub']['identifier']['id']
            obj = (fr.id, ident)
            ty = self.prog.ty(s['namedSub']['type'])
            if ty.k == 'array' and not isinstance(ty.n, int) and ty.n['id'] != 'constant':
                ty2 = Ty('array', to=ty.to, n=self.dim(ty.n, st, fr))
                ty = ty2
            self.new_obj(st, obj, ty, fr)
            return False
        if iid == 'ASSIGN':
            l, r = x['code']['sub']
            v = self.ev(r, st, fr)
            lv = self.lval(l, st, fr)
            self.write(lv, v, st)
            if self.on_write:
                self.on_write(lv, st, fr)
            return False
        if iid == 'OTHER':
            return False
        if iid == 'SET_RETURN_VALUE':
            v = self.ev(x['code']['sub'][0], st, fr)
            st.mem[(fr.ret, ())] = v
            return False
        if iid == 'ASSUME':
            c = self.ev(x['guard'], st, fr)
            st.path = And2(st.path, c)
            return z3.is_false(st.path)
        if iid == 'ASSERT':
            c = self.ev(x['guard'], st, fr)
            self.oblige(st, f'assert {self.site}', c, 'assert')
            return False
        if iid == 'FUNCTION_CALL':
            sub_ = x['code']['sub']
            lhs, f, args = sub_[0], sub_[1], sub_[2]
            if f['id'] != 'symbol':
                raise Unsupported('indirect call')
            fn = f['namedSub']['identifier']['id']
            av = [self.ev(a, st, fr) for a in args.get('sub', [])]
            ret, st2 = self.docall(fn, av, st, fr, x)
            if st2 is None:
                return True
            if st2 is not st:
                st.mem, st.path = st2.mem, st2.path
            if lhs['id'] != 'nil' and lhs['id'] != '':
                lv = self.lval(lhs, st, fr)
                if ret is None:
                    raise Unsupported(f'no return value from {fn}')
                self.write(lv, ret, st)
            return False
        raise Unsupported(f'instruction {iid}')

    def docall(self, fn, av, st, fr, x):
        c = self.contracts.get(fn)
        if c is not None:
            self.used_contracts.add(fn)
            site = self.site
            ptrs = [a for a in av if isinstance(a, Ptr)]
            check = getattr(c, '__module__', '') not in ('cbuiltins', 'intrin') and len({a.obj for a in ptrs if a.obj != 'NULL'}) < len([a for a in ptrs if a.obj != 'NULL'])
            if check:
                before, wrote = st.copy(), set()
                self.wlogs.append(wrote)
            r = c(self, st, av, fr)
            self.site = site
            if check:
                self.wlogs.pop()
                self.no_overlap(before, fn, ptrs, wrote)
            return r, st
        if fn in self.prog.funcs:
            site = self.site
            r = self.call(fn, av, st, fr.callpath + ((fr.fname, x['locationNumber']),))
            self.site = site
            return r
        raise Unsupported(f'call to {fn} without contract or body')

    def no_overlap(self, st, fn, ptrs, wrote):
        """contracts are proved for arguments that are distinct objects: what the callee writes through one argument must not be
        another argument (positions within one array of scalars excepted)"""
        def near(p, q):
            n = min(len(p), len(q))
            return p[:n] == q[:n]
        for i, a in enumerate(ptrs):
            for b in ptrs[i + 1:]:
                if a.obj != b.obj or a.obj == 'NULL' or not near(a.path, b.path):
                    continue
                if not any(k[0] == a.obj and near(k[1], a.path) and near(k[1], b.path) for k in wrote):
                    continue
                ia, ib = a.idxs, b.idxs
                if a.path == b.path and len(ia) == len(ib) and ia and self.scalar_at(a):
                    if all(z3.eq(x, y) for x, y in zip(ia, ib)):
                        self.oblige(st, f'arguments of {fn} are distinct objects {self.site}', FALSE, 'pre')
                    continue
                n = min(len(ia), len(ib))
                self.oblige(st, f'arguments of {fn} are distinct objects {self.site}', Or(*[x != y for x, y in zip(ia[:n], ib[:n])]) if n else FALSE, 'pre')

    def scalar_at(self, p):
        try:
            return self.actual_ty(p).k in ('bv', 'bool')
        except Unsupported:
            return True

    # ------------------------------------------------------------ variables for specs
    def var(self, st, frame, name, info=None):
        cands = [k for k in st.mem if k[0][0] == frame.id and isinstance(k[0][1], str) and
                 k[0][1].split('::')[-1] == name and k[1] == ()]
        if len(cands) > 1 and info:
            cands = [k for k in cands if k[0][1] in info['assigned'] and k[0][1] not in info['decl_in']] or cands
        if len(cands) != 1:
            raise ShapeMismatch(f'variable {name} not found in {frame.fname}')
        return st.mem[cands[0]]

    # ------------------------------------------------------------ loops
    def loop(self, fr, head, end, st, pend, exits, lo, hi, active):
        ins, heads = self.prog.prep(fr.fname)
        parent = self.loopstack[-1]
        key = (fr.callpath, fr.fname, head)
        if key not in parent.idx:
            parent.idx[key] = len(parent.idx)
        path = parent.path + (parent.idx[key],)
        spec = self.loops.get(path)
        if callable(spec) and not isinstance(spec, LoopSpec):
            spec = spec(self)
        self.loops_seen[path] = (fr.fname, head)
        act2 = active | {head}

        def route(ex):
            for pc, s in ex.items():
                if pc == 'back':
                    continue
                if lo <= pc <= hi:
                    self.push(pend, pc, s)
                else:
                    self.push(exits, pc, s)

        if spec is None or spec.unroll:
            cap = (spec.cap if spec is not None and spec.cap else self.maxunroll)
            n = 0
            cur = st
            self.loopstack.append(LoopCtx(path))
            try:
                while cur is not None:
                    if n > cap:
                        raise ShapeMismatch(f'loop {path} in {fr.fname} has no invariant and does not unroll')
                    ex = self.region(fr, {head: cur}, head, end, act2, stop_head=head)
                    cur = ex.get('back')
                    if cur is not None:
                        p = cur.path if n < 2 else z3.simplify(cur.path)
                        if z3.is_false(p):
                            cur = None
                    route(ex)
                    n += 1
            finally:
                self.loopstack.pop()
            return

        info = self.loop_info(fr, head, end)
        if spec.rewrite:
            spec.rewrite(LView(self, st, fr, info))
        entry = st.copy()
        autos = self.auto_invs(spec, info, fr, entry)
        havoc = set(spec.ghost[0]) if spec.ghost else set()
        # frames found while an enclosing loop was still being inferred stay valid upper bounds
        memo = self.loopmemo.setdefault(path, (set(), set()))
        havoc |= {k for k in memo[0] if k in entry.mem}
        autos = [a for a in autos if a[0] not in memo[1]]
        lname = f'loop{".".join(map(str, path))}'
        for attempt in range(12):
            snap = (len(self.ctx.facts), len(self.ctx.obls), set(self.ctx.inst_done), len(self.genlog))
            hst = entry.copy()
            for k in havoc:
                if k in hst.mem:
                    self.havoc_leaf(hst, k)
            Lentry = LView(self, entry, fr, info, entry=entry)
            Lh = LView(self, hst, fr, info, entry=entry)
            # entry obligations
            for lab, inv in self.inv_list(spec, Lentry):
                self.check_inv(entry, Lentry, inv, f'{lname} init: {lab}')
            badauto = []
            for lab, fn in autos:
                if not self.quick(entry, fn(Lentry)):
                    badauto.append(lab)
            if badauto:
                autos = [a for a in autos if a[0] not in badauto]
                memo[1].update(badauto)
                self.rollback(snap)
                continue
            # assume
            if spec.define:
                for k, t in spec.define(Lentry).items():
                    self.oblige(entry, f'{lname} init: ghost {k[0][-1]}', Eq(entry.mem[k], t), 'inv')
                for k, t in spec.define(Lh).items():
                    hst.mem[k] = t
            for lab, fn in autos:
                self.assume(hst, fn(Lh))
            for lab, inv in self.inv_list(spec, Lh):
                self.assume_inv(hst, Lh, inv)
            headst = hst.copy()
            Lhead = LView(self, headst, fr, info, entry=entry)
            if spec.entry:
                spec.entry(Lhead)
            if spec.head:
                spec.head(Lhead)
            log = set()
            self.wlogs.append(log)
            self.loopstack.append(LoopCtx(path))
            try:
                run = hst.copy()
                ex = self.region(fr, {head: run}, head, end, act2, stop_head=head)
            finally:
                self.loopstack.pop()
                self.wlogs.pop()
            newh = {k for k in log if k in entry.mem} - havoc
            if newh:
                havoc |= newh
                memo[0].update(newh)
                self.rollback(snap)
                continue
            back = ex.get('back')
            if back is not None:
                Lb = LView(self, back, fr, info, head=Lhead, entry=entry)
                if spec.ghost:
                    spec.ghost[1](Lhead, Lb)
                badauto = []
                for lab, fn in autos:
                    if not self.quick(back, fn(Lb)):
                        badauto.append(lab)
                if badauto:
                    autos = [a for a in autos if a[0] not in badauto]
                    memo[1].update(badauto)
                    self.rollback(snap)
                    continue
                for lab, fn in autos:
                    ob = self.oblige(back, f'{lname} preserve: {lab}', TRUE, 'inv')
                for lab, inv in self.inv_list(spec, Lb):
                    self.check_inv(back, Lb, inv, f'{lname} preserve: {lab}')
                if spec.define:
                    for k, t in spec.define(Lb).items():
                        self.oblige(back, f'{lname} preserve: ghost {k[0][-1]}', Eq(back.mem[k], t), 'inv')
                if spec.step:
                    for lab, g in spec.step(Lhead, Lb):
                        self.check_inv(back, Lb, g, f'{lname} step: {lab}')
                if spec.decreases:
                    d0, d1 = spec.decreases(Lhead), spec.decreases(Lb)
                    self.oblige(back, f'{lname} terminates', z3.ULT(d1, d0), 'decreases')
                self.ctx.covers.append((f'{self.name}/{lname} body reachable', back.path, len(self.ctx.facts)))
            for k in log:
                self.log(k)
            # exits also see everything written inside the loop
            route(ex)
            for k in havoc:
                self.log(k)
            return
        raise Unsupported(f'loop {path}: frame inference did not converge')

    def rollback(self, snap):
        while len(self.genlog) > snap[3]:
            a, g = self.genlog.pop()
            a.gens.remove(g)
        del self.ctx.facts[snap[0]:]
        del self.ctx.obls[snap[1]:]
        self.ctx.inst_done = set(snap[2])
        self.ctx.covers = [c for c in self.ctx.covers if c[2] <= snap[0]]
        self._bseen.clear()

    def inv_list(self, spec, L):
        return list(spec.inv(L)) if spec.inv else []

    def havoc_leaf(self, st, k):
        v = st.mem[k]
        nm = f'{k[0][-1].split("::")[-1]}{"".join("." + p for p in k[1])}' if isinstance(k[0], tuple) else str(k[0])
        if isinstance(v, Arr):
            st.mem[k] = Base(nm, v.nd, v.w)
        elif isinstance(v, Ptr):
            if v.obj in ('UNINIT', 'NULL', 'STRING'):
                st.mem[k] = Ptr('UNINIT', (), [], v.ty)
            else:
                st.mem[k] = Ptr(v.obj, v.path, [fresh(IDX, nm) for _ in v.idxs], v.ty)
        elif isinstance(v, PtrArr):
            stt = v.static or self.ptrstatic.get(k)
            if stt is not None:
                st.mem[k] = PtrArr(v.nd, stt, [Base(nm, v.nd, IDX) for _ in range(stt[2])])
        elif isinstance(v, Ghost):
            st.mem[k] = v.havoc()
        elif z3.is_bool(v):
            st.mem[k] = fresh('bool', nm)
        else:
            st.mem[k] = fresh(v.size(), nm)

    def check_inv(self, st, L, inv, label):
        if isinstance(inv, Forall):
            xs = [fresh(IDX, 'sk') for _ in range(inv.n)]
            for ref, mp in inv.trig:
                if not isinstance(ref, Ptr) and ref[0][0] == 'ghost' and ref[0][1].startswith('trig'):
                    st.mem[ref].read(self.ctx, xs)
            g = inv.body(L, *xs)
            self.oblige(st, label, g, 'inv', info=xs)
        else:
            self.oblige(st, label, inv, 'inv')

    def assume_inv(self, st, L, inv):
        if isinstance(inv, Forall):
            body, n = inv.body, inv.n
            # freeze the state: the fact speaks about the state at the loop head
            fz = st.copy()
            Lz = LView(self, fz, L.frame, L.info, entry=L.entryv)
            path = st.path
            for ref, mp in inv.trig:
                k = (ref.obj, ref.path) if isinstance(ref, Ptr) else ref

                def gen(idxs, mp=mp, Lz=Lz, path=path):
                    xs = mp(list(idxs)) if mp else list(idxs)
                    if xs is None:
                        return None
                    if xs and isinstance(xs[0], (list, tuple)):
                        return And(*[Implies(path, body(Lz, *x)) for x in xs])
                    return Implies(path, body(Lz, *xs))
                a = st.mem[k]
                if isinstance(a, PtrArr):
                    for cb in a.comps or []:
                        if isinstance(cb, Base):
                            cb.gens.append(gen)
                            self.genlog.append((cb, gen))
                elif isinstance(a, Base):
                    a.gens.append(gen)
                    self.genlog.append((a, gen))
                    # same base may be shared with fz: fine (same contents)
                else:
                    na = Annot(a, [gen])
                    st.mem[k] = na
            if not inv.trig:
                raise AssertionError('Forall without trigger')
        else:
            self.assume(st, inv)

    # -- automatic induction-variable ranges (Houdini candidates)
    def loop_info(self, fr, head, end):
        ins, heads = self.prog.prep(fr.fname)
        nested = [(h, e) for h, e in heads.items() if head < h and e <= end]
        asg = {}
        for pc in range(head, end + 1):
            x = ins[pc]
            if x['instructionId'] in ('ASSIGN', 'FUNCTION_CALL'):
                l = x['code']['sub'][0]
                if l.get('id') == 'symbol':
                    ident = l['namedSub']['identifier']['id']
                    inn = any(h <= pc <= e for h, e in nested)
                    d = None
                    if x['instructionId'] == 'ASSIGN':
                        d = self.incr(x['code']['sub'][1], ident)
                    asg.setdefault(ident, []).append((pc, inn, d))
        decl_in = {ins[pc]['code']['sub'][0]['namedSub']['identifier']['id']
                   for pc in range(head, end + 1) if ins[pc]['instructionId'] == 'DECL'}
        cand = {i: a for i, a in asg.items() if i not in decl_in and all(not inn for _, inn, _ in a) and
                all(d is not None for _, _, d in a)}
        guards = []
        for pc in (head, end):
            x = ins[pc]
            if x['instructionId'] == 'GOTO' and x.get('guard'):
                guards.append((pc, x['guard']))
        order = []
        for pc, g in guards:
            for s in syms_in(g):
                if s in cand and s not in order:
                    order.append(s)
        for s in cand:
            if s not in order:
                order.append(s)
        info = {'ivar': ((fr.id, order[0]), ()) if order else None, 'cands': order, 'cand': cand,
                'guards': guards, 'head': head, 'end': end, 'decl_in': decl_in, 'assigned': asg}
        return info

    def incr(self, rhs, ident):
        e = rhs
        while e['id'] == 'typecast':
            e = e['sub'][0]
        if e['id'] in ('+', '-') and len(e['sub']) == 2:
            a, b = e['sub']
            while a['id'] == 'typecast':
                a = a['sub'][0]
            while b['id'] == 'typecast':
                b = b['sub'][0]
            if a['id'] == 'symbol' and a['namedSub']['identifier']['id'] == ident and b['id'] == 'constant':
                try:
                    v = int(b['namedSub']['value']['id'], 16)
                except ValueError:
                    return None
                return v if e['id'] == '+' else -v
        return None

    def auto_invs(self, spec, info, fr, entry):
        out = []
        if not spec.auto:
            return out
        for ident in info['cands']:
            key = ((fr.id, ident), ())
            if key not in entry.mem:
                continue
            v0 = entry.mem[key]
            if not z3.is_bv(v0):
                continue
            steps = {d for _, _, d in info['cand'][ident]}
            ty = self.objty[(fr.id, ident)]
            w = ty.w
            s = ty.signed
            le = (lambda a, b: a <= b) if s else z3.ULE
            if all(d > 0 and d < (1 << (w - 1)) for d in steps):
                out.append((f'auto {ident.split("::")[-1]} >= init',
                            lambda L, key=key, v0=v0, le=le: le(v0, L.st.mem[key])))
                if len(steps) == 1:
                    d = steps.pop()
                    if d > 1 and d & (d - 1) == 0:
                        out.append((f'auto {ident.split("::")[-1]} aligned',
                                    lambda L, key=key, v0=v0, d=d: Eq((L.st.mem[key] - v0) & bv(d - 1, v0.size()), bv(0, v0.size()))))
                else:
                    d = max(steps)
                for pc, g in info['guards']:
                    for op, lhs, rhs, neg in cmps(g):
                        sl = strip_cast(lhs)
                        if sl['id'] == 'symbol' and sl['namedSub']['identifier']['id'] == ident and op in ('<', '>=', 'notequal', '='):
                            if ident in syms_in(rhs):
                                continue
                            def f(L, key=key, rhs=rhs, lhs=lhs, d=d):
                                try:
                                    b = L.ex.ev(rhs, L.st, L.frame)
                                    a = L.ex.ev(lhs, L.st, L.frame)
                                except Unsupported:
                                    return TRUE
                                if z3.is_bool(a) or not z3.is_bv(a) or not z3.is_bv(b):
                                    return TRUE
                                sg = L.ex.prog.ty(lhs['namedSub']['type']).signed
                                bb = b if d == 1 else b + bv(d - 1, b.size())
                                return (a <= bb) if sg else z3.ULE(a, bb)
                            out.append((f'auto {ident.split("::")[-1]} <= bound', f))
            elif all(d < 0 or d >= (1 << (w - 1)) for d in steps):
                out.append((f'auto {ident.split("::")[-1]} <= init',
                            lambda L, key=key, v0=v0, le=le: le(L.st.mem[key], v0)))
                if s:
                    out.append((f'auto {ident.split("::")[-1]} >= -1',
                                lambda L, key=key, v0=v0: L.st.mem[key] >= bv(-1, v0.size())))
        return out

    # ------------------------------------------------------------ solving
    def quick(self, st, goal):
        if z3.is_true(goal):
            return True
        return self.check(st.path, goal, len(self.ctx.facts), 4000)[0] == 'proved'

    def check(self, path, goal, nf, timeout=None):
        facts = self.ctx.facts[:nf]
        return solve(facts, path, goal, timeout or self.ctx.timeout)


def solve(facts, path, goal, timeout):
    t0 = time.time()
    if len(facts) > 40:
        # most obligations only need the facts over their own symbols
        want = term_syms(And(path, Not(goal)))
        s = z3.Solver()
        s.set('timeout', min(1500, timeout))
        s.add(*[f for f in facts if term_syms(f) <= want])
        s.add(path, Not(goal))
        if s.check() == z3.unsat:
            return 'proved', None, time.time() - t0
    fs = slice_facts(facts, And(path, Not(goal)))
    s = z3.SolverFor('QF_UFBV') if False else z3.Solver()
    s.set('timeout', timeout)
    for f in fs:
        s.add(f)
    s.add(path)
    s.add(Not(goal))
    r = s.check()
    if r == z3.unsat:
        return 'proved', None, time.time() - t0
    if r == z3.sat:
        if len(fs) != len(facts):
            # the slice is only an optimisation: confirm with every fact
            s.add(*facts)
            r = s.check()
            if r == z3.unsat:
                return 'proved', None, time.time() - t0
            if r != z3.sat:
                return 'unknown', None, time.time() - t0
        return 'refuted', s.model(), time.time() - t0
    # a second attempt with another search order
    s = z3.Solver()
    s.set('timeout', timeout // 2)
    s.set('random_seed', 7)
    s.set('phase_selection', 0)
    s.add(*fs)
    s.add(path, Not(goal))
    if s.check() == z3.unsat:
        return 'proved', None, time.time() - t0
    return 'unknown', None, time.time() - t0


_symcache = {}


def term_syms(t):
    k = t.get_id()
    r = _symcache.get(k)
    if r is not None:
        return r[0]
    out = set()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                n = d.name()
                out.add(n)
            stack.extend(x.children())
    _symcache[k] = (out, t)
    return out


def slice_facts(facts, goal):
    if len(facts) < 60:
        return facts
    want = set(term_syms(goal))
    # very common spec symbols do not connect facts by themselves
    common = {'M', 'INV', 'SUB'}
    rest = [(f, term_syms(f) - common) for f in facts]
    out = []
    changed = True
    while changed and rest:
        changed = False
        nr = []
        for f, s in rest:
            if not s or (s & want):
                out.append(f)
                if not s <= want:
                    want |= s
                    changed = True
            else:
                nr.append((f, s))
        rest = nr
    return out


def And2(a, b):
    """path conjunction kept flat (last conjunct last)"""
    if z3.is_true(a):
        return b
    if z3.is_true(b):
        return a
    if z3.is_false(a) or z3.is_false(b):
        return FALSE
    ca = a.children() if z3.is_and(a) else [a]
    return z3.And(*ca, b)


def strip_cast(e):
    while e['id'] == 'typecast':
        e = e['sub'][0]
    return e


def syms_in(e):
    out = []
    stack = [e]
    while stack:
        x = stack.pop(0)
        if x.get('id') == 'symbol':
            out.append(x['namedSub']['identifier']['id'])
        stack.extend(x.get('sub', []))
    return out


def cmps(g, neg=False):
    i = g['id']
    if i == 'not':
        yield from cmps(g['sub'][0], not neg)
    elif i in ('and', 'or'):
        for s in g['sub']:
            yield from cmps(s, neg)
    elif i in ('<', '<=', '>', '>=', '=', 'notequal'):
        yield (i, g['sub'][0], g['sub'][1], neg)


def top0b(t):
    import math127
    return math127.ub(t) < (1 << (t.size() - 1))


def top0(t):
    if is_num(t):
        return num(t) < (1 << (t.size() - 1))
    k = t.decl().kind()
    if k == z3.Z3_OP_ZERO_EXT:
        return True
    if k == z3.Z3_OP_ITE:
        return top0(t.arg(1)) and top0(t.arg(2))
    if k == z3.Z3_OP_BADD and t.num_args() == 2:
        # zext(a)+c small
        def ub(x):
            if is_num(x):
                return num(x)
            if x.decl().kind() == z3.Z3_OP_ZERO_EXT:
                return (1 << x.arg(0).size()) - 1
            return None
        a, b = ub(t.arg(0)), ub(t.arg(1))
        return a is not None and b is not None and a + b < (1 << (t.size() - 1))
    return False


def bitop(op, a, b):
    w = a.size()
    if is_num(a) and is_num(b):
        x, y = num(a), num(b)
        return bv({'bitand': x & y, 'bitor': x | y, 'bitxor': x ^ y}[op], w)
    if is_num(a):
        a, b = b, a
    if is_num(b):
        y = num(b)
        if op == 'bitand':
            if y == 0:
                return b
            if y == (1 << w) - 1:
                return a
        if op in ('bitor', 'bitxor') and y == 0:
            return a
    return {'bitand': lambda: a & b, 'bitor': lambda: a | b, 'bitxor': lambda: a ^ b}[op]()


EXPR = {'symbol': 'symbol', 'index': 'mem', 'member': 'mem', 'dereference': 'mem', 'constant': 'constant',
        'typecast': 'typecast', '+': 'arith', '-': 'arith', '*': 'arith', 'unary-': 'neg',
        'bitand': 'bit', 'bitor': 'bit', 'bitxor': 'bit', 'bitnot': 'bitnot',
        'shl': 'shift', 'lshr': 'shift', 'ashr': 'shift', '/': 'divmod', 'mod': 'divmod',
        '=': 'cmp', 'notequal': 'cmp', '<': 'cmp', '<=': 'cmp', '>': 'cmp', '>=': 'cmp',
        'and': 'bool', 'or': 'bool', '=>': 'implies', 'not': 'not', 'if': 'if', 'address_of': 'addr',
        'array': 'array', 'array_of': 'array_of', 'struct': 'struct', 'side_effect': 'nondet', 'nondet_symbol': 'nondet'}

from intrin import Lanes, lanes, splice
