import sys; sys.path.insert(0,'/verif/engine'); sys.setrecursionlimit(100000)
import json, gbread, time
from goto import run, FrontendError

def load_gb_json(gb):
    rc, o, e = run(['goto-instrument', '--show-goto-functions', '--json-ui', gb])
    try:
        d = json.loads(o)
    except ValueError:
        raise FrontendError(f'goto-instrument: {(o + e)[-800:]}')
    funcs = {}
    for x in d:
        if 'functions' in x:
            for f in x['functions']:
                if f.get('isBodyAvailable'):
                    funcs[f['name']] = f['instructions']
    rc, o, e = run(['goto-instrument', '--show-symbol-table', '--json-ui', gb])
    d = json.loads(o)
    syms = {}
    for x in d:
        if 'symbolTable' in x:
            syms = x['symbolTable']
    for y in syms.values():
        if isinstance(y.get('type'), dict) and y['type'].get('id') == 'code':
            y.pop('value', None)
    return funcs, syms



gb=sys.argv[1]
t=time.time(); f1,s1=gbread.read(gb); print('bin',time.time()-t)
f2,s2=load_gb_json(gb)
print(len(f1),len(f2),set(f1)^set(f2)); print(len(s1),len(s2), list(set(s1)^set(s2))[:5])
import itertools
def norm(a):
    return a
memo={}
def eq(a,b,path=''):
    if isinstance(a,dict) and isinstance(b,dict):
        a,b=({k:({q:r for q,r in v.items() if q[0]!='#'} if k=='namedSub' else v) for k,v in x.items()} for x in (a,b))
        k=(id(a),id(b))
        ka={k for k in a if k[0]!='#' and not (k in('sub','namedSub') and not a[k])}; kb={k for k in b if k[0]!='#' and not (k in('sub','namedSub') and not b[k])}
        if ka!=kb: print('KEYS',path,ka^kb,str(a)[:200],str(b)[:200]); return False
        return all(eq(a[k],b[k],path+'/'+k) for k in ka)
    if isinstance(a,list):
        return len(a)==len(b) and all(eq(x,y,path+f'/{i}') for i,(x,y) in enumerate(zip(a,b)))
    if a!=b: print('DIFF',path,str(a)[:100],str(b)[:100]); return False
    return True
bad=0
for f in f2:
    i1,i2=f1[f],f2[f]
    if len(i1)!=len(i2): print('LEN',f); bad+=1; continue
    l1={x['locationNumber']:n for n,x in enumerate(i1)}; l2={x['locationNumber']:n for n,x in enumerate(i2)}
    for x,y in zip(i1,i2):
        for k in ('instructionId','guard','code'):
            if (k in x)!=(k in y): print('HAS',f,k,x.get('instructionId'),str(x.get(k))[:200],str(y.get(k))[:200]); bad+=1
            elif k in x and not eq(x[k],y[k],f+'/'+k): bad+=1
        if [l1[t] for t in x.get('targets',[])]!=[l2[t] for t in y.get('targets',[])]: print('TGT',f); bad+=1
        if bad>8: sys.exit('many')
for n,y in s2.items():
    if n not in s1:
        print("only json",n) if not n.endswith("$object") else 0
        continue
    x=s1[n]
    for k in ('type','value'):
        if k in y and not eq(x[k],y[k],n+'/'+k): bad+=1
    for k in ('name','baseName','isStaticLifetime','isType','isLvalue','isParameter','isExtern','isFileLocal'):
        if k in y and x.get(k)!=y[k]: print(n,k,x.get(k),y[k]); bad+=1
    if bad>8: sys.exit('many')
print('bad',bad, list(s2.values())[0].keys())
