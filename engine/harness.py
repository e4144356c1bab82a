"""Common set-up of verification units."""
import os, re, sys, time, tempfile, shutil, traceback
import z3
import goto
from goto import *
from vcg import *
import vcg
from symex import Exec, solve
from cbuiltins import BUILTINS

WORK = None


def workdir():
    global WORK
    if WORK is None:
        WORK = os.environ.get('VCG_WORK')
        if WORK:
            return WORK
        WORK = tempfile.mkdtemp(prefix='vcg')
        import atexit
        atexit.register(lambda d=WORK, pid=os.getpid(): os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    return WORK


_progs = {}


def cache_path(cfg, base):
    return f'{workdir()}/{cfg.name}-{base}.gb'


def prepare(cfg, base):
    """front end for one translation unit: GOTO binary, or a .err file with the reason"""
    out = cache_path(cfg, base)
    if os.path.exists(out) or os.path.exists(out + '.err'):
        return
    d = tempfile.mkdtemp(dir=workdir())
    try:
        compile_gb([cfg.src(base)], cfg.cppflags(base), d + '/o.gb', d)
        os.replace(d + '/o.gb', out)
    except FrontendError as e:
        with open(out + '.err', 'w') as f:
            f.write(str(e))
    shutil.rmtree(d, ignore_errors=True)


def program(cfg, base):
    k = (cfg.name, base)
    if k not in _progs:
        prepare(cfg, base)
        out = cache_path(cfg, base)
        if os.path.exists(out + '.err'):
            raise FrontendError(open(out + '.err').read())
        _progs[k] = Program(out)
    return _progs[k]


class P:
    """scheme parameters, written independently of the code"""

    def __init__(self, cfg):
        sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'native'))
        self.cfg = cfg
        self.N, self.K, self.S = {'1': (252, 126, 16), '3': (400, 200, 24), '5': (548, 274, 32)}[cfg.cat]
        self.NK, self.T, self.W, self.MAXB = {
            ('1', 'BALANCED'): (2, 247, 30, 1472), ('1', 'INTERMEDIATE'): (4, 244, 20, 1152),
            ('1', 'SHORT_SIG'): (8, 198, 17, 1056), ('3', 'BALANCED'): (2, 759, 33, 3912),
            ('3', 'SHORT_SIG'): (3, 895, 26, 3264), ('5', 'BALANCED'): (2, 1352, 40, 7168),
            ('5', 'SHORT_SIG'): (3, 907, 37, 5600)}[(cfg.cat, cfg.var)]
        self.H = 2 * self.S
        self.LEAVES = 1 << self.T.bit_length()
        self.NODES = 2 * self.LEAVES - 1
        self.PW = 8 if cfg.cat == '1' else 16
        self.NBITS = self.N.bit_length()
        self.AB = (7 * self.K + 7) // 8 + (self.NBITS * self.K + 7) // 8
        self.RB = (7 * (self.N - self.K) * self.K + 7) // 8 + (self.N + 7) // 8


class UnitResult:
    def __init__(self, name):
        self.name = name
        self.obls = []           # (name, status, seconds, kind)
        self.functions = []
        self.contracts = []
        self.error = None        # undecided reason
        self.covers = 0
        self.vacuous = []
        self.wall = 0.0
        self.shape = []          # loops met: which function holds each
        self.models = {}
        self.backend = 'z3 %s' % z3.get_version_string()

    def dict(self):
        return self.__dict__


class Unit:
    """one function (or lemma) under contract in one configuration"""

    def __init__(self, name, fn, timeout=20000):
        self.name, self.fn, self.timeout = name, fn, timeout

    def attempt(self):
        r = UnitResult(self.name)
        t0 = time.time()
        try:
            self.fn(r)
        except Unsupported as e:
            r.error = f'{type(e).__name__}: {e}'
        except FrontendError as e:
            r.error = f'frontend: {e}'
        except Exception as e:
            r.error = f'internal: {e!r} ' + traceback.format_exc()[-900:]
        r.wall = time.time() - t0
        return r

    def run(self):
        BASE.update(count=False, seen=False)
        r = self.attempt()
        if BASE['seen'] and not proved(r):
            # loops that do not start at 0: read the invariants over the number of iterations
            BASE.update(count=True)
            r2 = self.attempt()
            BASE.update(count=False)
            if proved(r2):
                return r2
        return r


def proved(r):
    return not r.error and not r.vacuous and all(o[1] == 'proved' for o in r.obls)


def first_proved(cfg, p, r, bodies):
    """alternative annotations of the same function against the same contract: the first that is discharged completely counts;
    when none is, the outcome of the first is reported"""
    outs = []
    for b in bodies:
        x = UnitResult(r.name)
        try:
            b(cfg, p, x)
        except Unsupported as e:
            x.error = f'{type(e).__name__}: {e}'
        outs.append(x)
        if proved(x):
            break
    else:
        x = next((y for y in outs if not y.error), outs[0])
    backend = r.backend
    r.__dict__.update(x.__dict__)
    r.backend = backend


def houdini(cfg, p, r, body, rounds=6):
    """candidate invariants: body(cfg, p, result, dropped) labels each `cand <name>`; those that are not inductive are dropped and the
    function is verified again from the start with the rest"""
    dropped = set()
    for _ in range(rounds):
        x = UnitResult(r.name)
        try:
            body(cfg, p, x, dropped)
        except Unsupported as e:
            x.error = f'{type(e).__name__}: {e}'
        bad = {m.group(1) for o in x.obls if o[1] != 'proved' for m in [re.search(r'cand <([^>]*)>', o[0])] if m}
        if not bad or x.error:
            break
        dropped |= bad
    backend = r.backend
    r.__dict__.update(x.__dict__)
    r.backend = backend


class Verif:
    """symbolic execution of one function against a specification"""

    def __init__(self, cfg, base, fname, contracts=None, loops=None, timeout=20000):
        self.cfg, self.p = cfg, P(cfg)
        self.prog = program(cfg, base)
        c = dict(BUILTINS)
        if cfg.impl != 'ref':
            from intrin import INTRIN
            c.update(INTRIN)
        c.update(contracts or {})
        self.fname = fname
        self.ctx = Ctx(timeout=timeout)
        self.ex = Exec(self.prog, cfg, c, loops or {}, self.ctx, name=f'{cfg.name}/{fname}')
        self.st = State()

    def obj(self, name, tname=None, ty=None, readonly=False):
        if ty is None:
            ty = self.type(tname)
        o = ('H', name)
        p = self.ex.new_obj(self.st, o, ty)
        if readonly:
            self.ex.readonly.add(o)
        return p

    def type(self, tname):
        """typedef name -> Ty"""
        s = self.prog.syms.get(tname)
        if s is None:
            raise Unsupported(f'type {tname} not found')
        return self.prog.ty(s['type'])

    def array(self, name, w, n, readonly=False):
        ty = Ty('array', to=Ty('bv', w=w), n=n)
        o = ('H', name)
        self.ex.new_obj(self.st, o, ty)
        if readonly:
            self.ex.readonly.add(o)
        return Ptr(o, (), [I(0)], ty.to)

    def rows(self, name, n, S, readonly=False):
        """byte array of n rows of S bytes (n constant or term)"""
        ty = Ty('array', to=Ty('array', to=Ty('bv', w=8), n=S), n=n)
        o = ('H', name)
        self.ex.new_obj(self.st, o, ty)
        if readonly:
            self.ex.readonly.add(o)
        self.ex.blocked[o] = S
        return Ptr(o, (), [I(0), I(0)], ty.to.to)

    def leaf(self, p, *path):
        return (p.obj, tuple(path))

    def gen(self, ref, g):
        """attach a universally quantified precondition to a leaf: g(read, *idxs) -> Bool"""
        a = self.st.mem[ref]

        def gg(idxs, a=a):
            return g(*idxs)
        a.gens.append(gg)

    def rd(self, ref, *idxs, st=None):
        a = (st or self.st).mem[ref]
        return a.read(self.ctx, [z64(i) for i in idxs]) if isinstance(a, Arr) else a

    def assume(self, f):
        self.ctx.fact(f)

    def call(self, args, fname=None):
        fname = fname or self.fname
        if fname not in self.prog.funcs:
            raise Unsupported(f'function {fname} not found')
        return self.ex.call(fname, args, self.st)

    def prove(self, st, label, goal, kind='post'):
        self.ex.oblige(st, label, goal, kind)

    def forall(self, st, label, rng, goal, n=1):
        xs = [fresh(IDX, 'sk') for _ in range(n)]
        s2 = st.copy()
        s2.path = And(st.path, rng(*xs))
        self.ex.oblige(s2, label, goal(*xs), 'post', info=xs)

    def discharge(self, r, timeout=None):
        missing = [k for k, v in self.ex.loops.items() if v is not None and k not in self.ex.loops_seen and k not in self.ex.optional]
        if missing:
            raise ShapeMismatch(f'annotated loops {missing} not found in {self.fname}')
        r.shape.append(f'{self.fname}: ' + ' '.join(f'{".".join(map(str, k))}={f}' for k, (f, h) in sorted(self.ex.loops_seen.items()) if self.ex.loops))
        r.functions = sorted(set(r.functions) | self.ex.inlined)
        r.contracts = sorted(set(r.contracts) | self.ex.used_contracts)
        for ob in self.ctx.obls:
            if ob.status is None:
                s, m, t = solve(self.ctx.facts[:ob.nfacts], ob.path, ob.goal, timeout or self.ctx.timeout)
                ob.status, ob.time, ob.model = s, t, m
            r.obls.append((ob.name, ob.status, round(ob.time, 3), ob.kind))
            if ob.status == 'refuted':
                r.models[ob.name] = model_str(ob.model)
        # vacuity: bodies and the end of the function must be reachable
        for lab, path, nf in self.ctx.covers:
            s = z3.Solver()
            s.set('timeout', 5000)
            from symex import slice_facts
            for f in slice_facts(self.ctx.facts, path):
                s.add(f)
            s.add(path)
            c = s.check()
            r.covers += 1
            if c == z3.unsat:
                r.vacuous.append(lab)
        return r


def model_str(m):
    if m is None:
        return ''
    out = []
    for d in m.decls()[:60]:
        if d.arity() == 0:
            out.append(f'{d.name()}={m[d]}')
    return '; '.join(out)[:3000]
