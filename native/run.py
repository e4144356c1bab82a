"""run bounded differential cases of one property on one configuration
   run.py PROP impl cat var SEED SECONDS [--san] --status FILE      -> JSON on stdout
   run.py --replay FILE"""
import copy, json, os, signal, sys, time, zlib, shutil, subprocess, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import numpy as np


QUICK = {'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C28'}


def rng_for(seed, name, k):
    return np.random.default_rng([seed, zlib.crc32(name.encode()), k])


class Related:
    """random choices that repeat those of an earlier run of the same case, except for one"""

    def __init__(self, rng, log=None, at=None):
        self.rng, self.old, self.at, self.log = rng, log, at, []

    def __getattr__(self, name):
        f = getattr(self.rng, name)
        if not callable(f):
            return f

        def g(*a, **kw):
            i = len(self.log)
            r = f(*a, **kw)
            key = (name, repr(a), repr(kw))
            if self.old is not None and i < len(self.old) and self.old[i][0] == key:
                if i != self.at:
                    r = copy.deepcopy(self.old[i][1])
                elif isinstance(r, np.ndarray) and r.size > 1 and name == 'integers':
                    j = int(np.random.default_rng(i + r.size + int(np.sum(r) % 1000003)).integers(0, r.size))
                    r, new = np.array(self.old[i][1]), r
                    r.flat[j] = new.flat[j]
            self.log.append((key, copy.deepcopy(r)))
            return r
        return g


def run_case(f, lb, seed, k):
    """one case; for every fourth, the same inputs with one choice changed and then the first inputs again (what a function
    returns must not depend on what it was called with before)"""
    name = f.__name__
    if zlib.crc32(f'{name}/{k}'.encode()) % 4 != 1:
        return f(lb, rng_for(seed, name, k), k)
    a = Related(rng_for(seed, name, k))
    t = time.time()
    m = f(lb, a, k)
    if m or time.time() - t > 4:
        return m
    pick = rng_for(seed, name + '/related', k)
    b = Related(pick, a.log, int(pick.integers(0, max(1, len(a.log)))))
    m = f(lb, b, k)
    if m:
        return f'after a call with related inputs: {m}'
    m = f(lb, Related(pick, a.log), k)
    return f'after calls with related and equal inputs: {m}' if m else None


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop, impl, cat, var, seed, secs = sys.argv[1:7]
    so = os.environ.get('VX_SO')
    status = os.environ.get('VX_STATUS')
    only = os.environ.get('VX_ONLY')            # name:k
    import cases
    import lib as L
    lb = L.Lib(impl, cat, var, so=so, workdir=os.path.dirname(so) if so else None)
    cs = cases.CASES[prop]
    t0 = time.time()
    per = float(secs) / max(1, len(cs))
    n = 0
    for f in cs:
        if only and only.split(':')[0] != f.__name__:
            continue
        ks = range(10**9) if not only else [int(only.split(':')[1])]
        t1 = time.time()
        for k in ks:
            if not only and time.time() - t1 > per and k >= 1:
                break
            if not only and k >= (400 if float(secs) < 20 else 8000):
                break
            if status:
                with open(status, 'w') as s:
                    s.write(f'{f.__name__}:{k}:{n}')
            # a case takes milliseconds to a few seconds (whole signatures of the largest sets: up to minutes of processor time): more is a call that does not return
            signal.setitimer(signal.ITIMER_PROF, 150 if prop in QUICK else 230)
            m = run_case(f, lb, int(seed), k)
            signal.setitimer(signal.ITIMER_PROF, 0)
            n += 1
            if m:
                print(json.dumps({'n': n, 'fail': m, 'case': f.__name__, 'k': k}))
                return 0
    print(json.dumps({'n': n, 'fail': None, 'wall': round(time.time() - t0, 2)}))
    return 0


def replay(path):
    d = json.load(open(path))
    if 'case' not in d:
        print(json.dumps(d, indent=1)[:20000])
        return 1
    tmp = tempfile.mkdtemp(prefix='vreplay')
    try:
        import build as B
        so, info = B.build(d['impl'], d['cat'], d['var'], f'{tmp}/l.so', bool(d.get('san')))
        if so is None:
            print('build failed', info)
            return 2
        env = dict(os.environ, VX_SO=so, VX_ONLY=f"{d['case']}:{d['k']}")
        if d.get('san'):
            env.update(san_env())
        r = subprocess.run([sys.executable, f'{HERE}/run.py', d['prop'], d['impl'], d['cat'], d['var'], str(d['seed']), '5'],
                           capture_output=True, text=True, env=env)
        print(r.stdout[-3000:], r.stderr[-3000:])
        ok = r.returncode == 0 and '"fail": null' in r.stdout
        print('HOLDS' if ok else 'FAILS')
        return 0 if ok else 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def san_env():
    asan = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
    ubsan = subprocess.run(['gcc', '-print-file-name=libubsan.so'], capture_output=True, text=True).stdout.strip()
    return {'LD_PRELOAD': f'{asan}:{ubsan}', 'ASAN_OPTIONS': 'detect_leaks=0:detect_stack_use_after_return=0', 'UBSAN_OPTIONS': 'print_stacktrace=1'}


if __name__ == '__main__':
    sys.exit(main())
