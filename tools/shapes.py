"""shapes.py: records engine/shapes.json (loop structure per unit) on the unchanged tree"""
import json, os, shutil, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE]
sys.setrecursionlimit(100000)
import check, props
work = tempfile.mkdtemp()
os.environ['VCG_WORK'] = work
units, pre = {}, {}
for p in props.PROPS.values():
    for m, f, i, c, v, bases, lim in p('thorough')['units']:
        if m == 'spec_lemmas':
            continue
        units[('unit', m, f, i, c, v)] = lim
        for b in bases:
            pre[('prep', i, c, v, b)] = (check.w_prepare, (i, c, v, b), 300, 0)
for k, r in check.run_tasks([(k,) + t for k, t in pre.items()], 1e18):
    pass
full = {}
for k, r in check.run_tasks([(k, check.w_unit, k[1:], lim, 10) for k, lim in sorted(units.items(), key=lambda x: -x[1])], 1e18):
    if r.get('crash') or r.get('error'):
        print('PROBLEM', k, r.get('crash') or r.get('error'))
        continue
    full[k] = r['shape']
    bad = [o[0] for o in r['obls'] if o[1] != 'proved'] + list(r['vacuous'])
    if bad:
        print('NOT PROVED', k, bad[:5])
out = {}
for k in sorted(full):
    a, b = check.shape_key(k)
    same = [full[x] for x in full if check.shape_key(x)[0] == a]
    if all(s == same[0] for s in same):
        out[a] = same[0]
    else:
        out[b] = full[k]
json.dump(out, open(HERE + '/engine/shapes.json', 'w'), indent=0)
print(len(full), 'units', len(out), 'entries')
shutil.rmtree(work)
