#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]

Decides one property on /repo's current source:
  1. front end: every needed translation unit of every configuration -> GOTO program
  2. every unit (function under contract / lemma) generates its obligations and has
     them discharged; units run in parallel, each in its own process
  3. bounded differential cases on the compiled real code: search for a concrete
     failing input for refuted obligations, and labelled stand-in where the verifier
     gave no answer
exit 0: no violation; exit 1: VIOLATION line(s)."""
import importlib, json, multiprocessing as mp, os, resource, shutil, signal, subprocess, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE + '/engine', HERE + '/native', HERE]
NPROC = min(8, os.cpu_count() or 1)


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- parallel tasks
def _child(fn, args, conn, mem):
    try:
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30))
        r = fn(*args)
    except BaseException as e:
        r = {'crash': f'{e!r} {traceback.format_exc()[-600:]}'}
    try:
        conn.send(r)
    except Exception as e:
        conn.send({'crash': f'result not transferable: {e!r}'})
    conn.close()
    os._exit(0)


def run_tasks(tasks, deadline):
    """tasks: [(key, fn, args, limit seconds, mem GB)]; yields (key, result)"""
    todo = list(tasks)
    live = {}
    while todo or live:
        while todo and len(live) < NPROC:
            key, fn, args, lim, mem = todo.pop(0)
            if time.time() > deadline:
                yield key, {'crash': 'check deadline reached before this task started'}
                continue
            a, b = mp.Pipe(False)
            p = mp.Process(target=_child, args=(fn, args, b, mem))
            p.start()
            b.close()
            live[key] = (p, a, min(time.time() + lim, deadline))
        for key, (p, a, dl) in list(live.items()):
            r = None
            if a.poll(0):
                try:
                    r = a.recv()
                except EOFError:
                    r = {'crash': 'worker ended without a result (memory?)'}
            elif not p.is_alive():
                try:        # the result may have arrived since the poll above
                    r = a.recv() if a.poll(0) else {'crash': 'worker died'}
                except EOFError:
                    r = {'crash': 'worker ended without a result (memory?)'}
            elif time.time() > dl:
                r = {'crash': 'time limit'}
            if r is not None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.join(5)
                a.close()
                del live[key]
                yield key, r
        time.sleep(0.02)


# ---------------------------------------------------------------- workers
def w_prepare(impl, cat, var, base):
    import harness
    harness.prepare(harness.Config(impl, cat, var), base)
    return 'ok'


def w_build(impl, cat, var, so, san):
    import build
    so2, info = build.build(impl, cat, var, so + '.tmp', san)
    if so2:
        os.rename(so2, so)
    return {'ok': bool(so2), 'info': str(info)[:1500]}


def w_unit(module, func, impl, cat, var):
    import harness
    m = importlib.import_module(module)
    u = getattr(m, func)(harness.Config(impl, cat, var))
    return u.run().dict()


def expected_shapes():
    """loop structure (which function holds which loop) the invariants were written for"""
    try:
        return json.load(open(f'{HERE}/engine/shapes.json'))
    except OSError:
        return {}


def shape_key(k):
    return [f'{k[1]}.{k[2]} {k[3]}', f'{k[1]}.{k[2]} {k[3]} {k[4]} {k[5]}']


def w_native(prop, impl, cat, var, seed, secs, so, san, status, other):
    import run as R
    env = dict(os.environ, VX_SO=so, VX_STATUS=status, VX_SO_OTHER=other or '')
    if san:
        env.update(R.san_env())
    p = subprocess.run([sys.executable, f'{HERE}/native/run.py', prop, impl, cat, var, str(seed), str(secs)],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    o = p.stdout.decode(errors='replace').strip().splitlines()
    try:
        return json.loads(o[-1])
    except Exception:
        if p.returncode < 0 or san:
            c = open(status).read().split(':') if os.path.exists(status) else ['?', '0', '0']
            return {'n': int(c[2]), 'fail': f'process ended with status {p.returncode}: ' + p.stderr.decode(errors='replace')[-1500:],
                    'case': c[0], 'k': int(c[1])}
        return {'crash': p.stderr.decode(errors='replace')[-800:]}


# ---------------------------------------------------------------- main
def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    import props
    spec = props.PROPS[prop](tier)
    deadline = t0 + (840 if tier == 'quick' else 7000)
    work = tempfile.mkdtemp(prefix=f'verif-{prop}-')
    os.environ['VCG_WORK'] = work
    try:
        rc = decide(prop, tier, seed, spec, work, deadline, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc


def decide(prop, tier, seed, spec, work, deadline, t0):
    units = spec['units']                 # [(module, func, impl, cat, var, [bases], limit)]
    same = 0
    try:
        import props, sametext
        add, same = sametext.extra(units, props.SETS)
        if add:
            log(f'note: {len(add)} more units: the functions differ between parameter sets')
            units = units + add
    except Exception as e:
        log(f'note: parameter sets not compared: {e!r}')
    nat = spec.get('native', [])          # [(impl, cat, var, seconds, san)]
    pre = {}
    for m, f, i, c, v, bases, lim in units:
        for b in bases:
            pre[('prep', i, c, v, b)] = (w_prepare, (i, c, v, b), 300, 0)
    for i, c, v, s, san in nat:
        pre[('build', i, c, v, san)] = (w_build, (i, c, v, sopath(work, i, c, v, san), san), 300, 0)
    if spec.get('pairs'):
        for i, c, v, s, san in nat:
            pre[('build', 'ref', c, v, False)] = (w_build, ('ref', c, v, sopath(work, 'ref', c, v, False), False), 300, 0)
    built = {}
    order = sorted(pre, key=lambda k: (k[0] != 'prep', k[-1] not in ('LESS', 'monomial')))
    for k, r in run_tasks([(k,) + pre[k] for k in order], deadline):
        built[k] = r
        if isinstance(r, dict) and not r.get('ok'):
            log(f'note: {k}: {r}')
    if nat and not any(isinstance(r, dict) and r.get('ok') for k, r in built.items() if k[0] == 'build'):
        log('the code does not build; no answer')
        return 2

    tasks = [(('unit', m, f, i, c, v), w_unit, (m, f, i, c, v), lim, 0 if m == 'spec_lemmas' else 10) for m, f, i, c, v, bases, lim in units]
    tasks.sort(key=lambda t: -t[3])

    def natask(i, c, v, s, san, sd):
        so = sopath(work, i, c, v, san)
        st = f'{work}/st-{i}{c}{v}{san}{sd}'
        other = sopath(work, 'ref', c, v, False) if spec.get('pairs') else None
        return (('native', i, c, v, san, sd), w_native, (prop, i, c, v, sd, s, so, san, st, other), s * 4 + 240, 0)
    ntasks = [natask(i, c, v, s, san, seed) for i, c, v, s, san in nat if os.path.exists(sopath(work, i, c, v, san))]
    ures, nres = {}, {}
    # interleave long native runs with the units
    for k, r in run_tasks(ntasks + tasks if spec.get('native_first', True) else tasks + ntasks, deadline - 200):      # leaves time to search for an input
        (ures if k[0] == 'unit' else nres)[k] = r
        if k[0] == 'unit':
            if 'crash' in r:
                r.update(name=f'{k[3]}-{k[4]}{k[5][0]}/{k[2]}', obls=[], functions=[], contracts=[], error=r['crash'], covers=0, vacuous=[], wall=0, models={}, backend='')

    # ------------------------------------------------------------ evaluate
    obl = dis = 0
    unproved, refuted, undecided = [], [], []
    functions, contracts, bounded, backends = set(), set(), [], set()
    stime = 0.0
    summ = []
    shapes = expected_shapes()
    for k, r in sorted(ures.items()):
        n = len(r['obls'])
        d = sum(1 for o in r['obls'] if o[1] == 'proved')
        obl += n
        dis += d
        stime += sum(o[2] for o in r['obls'])
        functions |= {f'{k[3]}-{k[4]}{k[5][0]}:{f}' for f in r['functions']}
        contracts |= set(r['contracts'])
        if r.get('backend'):
            backends.add(r['backend'])
        summ.append({'unit': r['name'], 'obligations': n, 'discharged': d, 'wall_s': round(r['wall'], 2),
                     **({'undecided': r['error']} if r['error'] else {}), **({'vacuous': r['vacuous']} if r['vacuous'] else {})})
        if r['error'] or r['vacuous']:
            undecided.append((r['name'], r['error'] or f'vacuous: {r["vacuous"]}'))
            continue
        exp = next((shapes[x] for x in reversed(shape_key(k)) if x in shapes), None)
        other = exp is not None and r.get('shape') != exp
        for o in r['obls']:
            if o[1] == 'refuted' and other:
                # the invariants belong to another loop structure: a failed obligation says nothing about the code
                undecided.append((r['name'], f'{o[0]}: not proved; the loops are not the annotated ones'))
            elif o[1] == 'refuted':
                refuted.append((r['name'], o[0], r['models'].get(o[0], '')))
            elif o[1] != 'proved':
                undecided.append((r['name'], f'{o[0]}: {o[1]}'))
    fails = []
    nev = 0
    for k, r in sorted(nres.items(), key=str):
        if r.get('crash'):
            undecided.append(('native ' + str(k[1:]), r['crash']))
            continue
        nev += r.get('n', 0)
        bounded.append({'config': f'{k[1]}-{k[2]}{k[3][0]}' + ('-san' if k[4] else ''), 'cases': r.get('n', 0)})
        if r.get('fail'):
            fails.append((k, r))
    if (refuted or undecided) and not fails and nat:
        # search for a concrete failing input with a larger budget: in the configurations whose
        # obligations are not proved, then in those the bounded cases already use
        log('not everything is proved: searching for a failing input')
        bad = {n for n, _, _ in refuted} | {n for n, _ in undecided}
        cf = sorted({(u[3], u[4], u[5]) for u in ures if ures[u]['name'] in bad})
        base = {(i, c, v): san for i, c, v, s, san in nat}
        allowed = spec.get('search')           # configurations the native cases can afford
        cand = [x for x in cf if x in base] + [x for x in cf if x not in base and (not allowed or x in allowed)]
        cand += [x for x in base if x not in cand]
        cand = cand[:8]
        need = {}
        for i, c, v in cand:
            for i2 in {i} | ({'ref'} if spec.get('pairs') else set()):
                so = sopath(work, i2, c, v, base.get((i, c, v), False) if i2 == i else False)
                if not os.path.exists(so):
                    need[('build', i2, c, v)] = (w_build, (i2, c, v, so, base.get((i, c, v), False) if i2 == i else False), 300, 0)
        for k, r in run_tasks([(k,) + t for k, t in need.items()], deadline):
            pass
        more = [natask(i, c, v, 45, base.get((i, c, v), False), seed + 1000 + q) for q in range(2) for i, c, v in cand
                if os.path.exists(sopath(work, i, c, v, base.get((i, c, v), False)))]
        got = {}
        for k, r in run_tasks(more[:8] if len(more) >= 8 else more, min(deadline, time.time() + 300)):
            if r.get('crash'):
                continue
            nev += r.get('n', 0)
            kk = f'{k[1]}-{k[2]}{k[3][0]}' + ('-san' if k[4] else '') + '-search'
            got[kk] = got.get(kk, 0) + r.get('n', 0)
            if r.get('fail'):
                fails.append((k, r))
        bounded += [{'config': k, 'cases': n} for k, n in got.items()]

    viol = []
    rdir = f'{HERE}/evidence/replay'
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '-'):
            os.unlink(f'{rdir}/{f}')
    for q, (k, r) in enumerate(fails[:3]):
        p = f'{rdir}/{prop}-{q}.json'
        json.dump({'property': prop, 'prop': prop, 'impl': k[1], 'cat': k[2], 'var': k[3], 'san': k[4], 'seed': k[5], 'case': r['case'], 'k': r['k'],
                   'pairs': bool(spec.get('pairs')), 'failure': r['fail'], 'obligations': [o for _, o, _ in refuted][:20],
                   'how': f'python3-vt {HERE}/native/run.py --replay {p}'}, open(p, 'w'), indent=1)
        viol.append((p, f'{k[1]} category {k[2]} {k[3]}: {r["fail"]}', False))
    if refuted and not fails:
        p = f'{rdir}/{prop}-obligation.json'
        json.dump({'property': prop, 'failed_obligations': [{'unit': n, 'obligation': o, 'verifier_model': m} for n, o, m in refuted[:40]],
                   'backend': sorted(backends), 'note': 'no concrete failing input was found by replaying on the compiled code'}, open(p, 'w'), indent=1)
        viol.append((p, f'obligation {refuted[0][1]} fails', True))

    complete = not undecided and not refuted and obl > 0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': spec['level'],
        'wall_s': round(time.time() - t0, 1),
        'coverage': {
            'obligations': obl, 'discharged': dis,
            'checker_cmd': f'python3-vt {HERE}/check.py {prop} {tier}',
            'trusted_base': spec['trusted'] + sorted(f'callee contract: {c}' for c in contracts),
            'functions_under_contract': sorted(functions), 'backends': sorted(backends), 'solver_time_s': round(stime, 1),
            'unit_results_transferred_to_sets_with_equal_text': same,
            'units': compact(summ), 'undecided': [f'{a}: {b}' for a, b in undecided][:60], 'all_obligations_proved': complete,
            'bounded_not_proof': {'cases': nev, 'what': spec.get('bounded', ''), 'per_config': bounded},
            'explanation': spec.get('note', ''),
            'samples': summ[:3], 'evaluations': nev,
        },
        'assumptions': spec.get('assumptions', []),
        'violations': [{'replay': p, 'what': w} for p, w, _ in viol],
    }
    os.makedirs(f'{HERE}/evidence', exist_ok=True)
    json.dump(ev, open(f'{HERE}/evidence/{prop}.json', 'w'), indent=1)
    log(f'{prop}: {dis}/{obl} obligations discharged in {len(ures)} units, {len(undecided)} undecided, {nev} bounded cases, {time.time() - t0:.0f} s')
    for a, b in undecided[:12]:
        log(f'  undecided: {a}: {str(b)[:300]}')
    for n, o, m in refuted[:12]:
        log(f'  refuted: {o}')
    for p, w, noinp in viol:
        log(f'  {w}')
        log(f'VIOLATION property={prop} replay={p}' + (' no-failing-input-found' if noinp else ''))
    return 1 if viol else 0


def compact(summ):
    """one line per unit; for checks with very many units one per function, all configurations together"""
    if len(summ) <= 120:
        return summ
    g = {}
    for u in summ:
        cfg, f = u['unit'].split('/', 1)
        e = g.setdefault(f, {'unit': f, 'configurations': [], 'obligations': 0, 'discharged': 0, 'wall_s': 0})
        e['configurations'].append(cfg)
        for k in ('obligations', 'discharged', 'wall_s'):
            e[k] = round(e[k] + u[k], 2)
        for k in ('undecided', 'vacuous'):
            if k in u:
                e.setdefault(k, []).append(f'{cfg}: {u[k]}'[:300])
    for e in g.values():
        e['configurations'] = ' '.join(e['configurations'])
    return list(g.values())


def sopath(work, i, c, v, san):
    return f'{work}/{i}-{c}{v[0]}{"-san" if san else ""}.so'


if __name__ == '__main__':
    sys.exit(main())
