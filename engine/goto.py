"""Frontend: turns the real C sources of /repo into CBMC GOTO programs and
loads them (typed, side-effect free) for the VC generator."""
import gbread
import os, re, subprocess, hashlib, tempfile, shutil

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))

SETS = [('1', 'BALANCED'), ('1', 'INTERMEDIATE'), ('1', 'SHORT_SIG'),
        ('3', 'BALANCED'), ('3', 'SHORT_SIG'), ('5', 'BALANCED'), ('5', 'SHORT_SIG')]
IMPLS = ['ref', 'avx2']


class FrontendError(Exception):
    pass


class Config:
    def __init__(self, impl, cat, var):
        self.impl, self.cat, self.var = impl, cat, var
        self._params = None

    @property
    def name(self):
        return f'{self.impl}-{self.cat}{self.var[0]}'

    @property
    def incdirs(self):
        if self.impl == 'ref':
            return [f'{REPO}/Reference_Implementation/include']
        base = f'{REPO}/Optimized_Implementation/{"avx2" if self.impl == "avx2" else "neon"}/include'
        return [f'{HERE}/{"shadow" if self.impl == "avx2" else "shadow_neon"}', base]

    @property
    def libdir(self):
        return {'ref': f'{REPO}/Reference_Implementation/lib',
                'avx2': f'{REPO}/Optimized_Implementation/avx2/lib',
                'neon': f'{REPO}/Optimized_Implementation/neon/lib'}[self.impl]

    def src(self, base):
        # the known-answer generator exists in three places
        if base == 'kat_util':
            return f'{REPO}/Utilities/KAT_Generation/lib/KAT_NIST_rng.c'
        if base == 'kat_nist':
            return f'{self.libdir}/nist/KAT_NIST_rng.c'
        if base == 'api':
            return f'{os.path.dirname(os.path.abspath(__file__))}/api_sizes.c'
        return f'{self.libdir}/{base}.c'

    @property
    def defs(self):
        return [f'-DCATEGORY_{self.cat}', f'-D{self.var}=1', '-DNDEBUG']

    def cppflags(self, base=None):
        f = []
        extra = {'kat_util': [f'{REPO}/Utilities/KAT_Generation/include'], 'kat_nist': [f'{self.libdir}/nist']}.get(base, [])
        for d in extra + self.incdirs:
            f += ['-I', d]
        return f + self.defs


def all_configs(impls=IMPLS, sets=SETS):
    return [Config(i, c, v) for i in impls for c, v in sets]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    return r.returncode, r.stdout.decode(errors='replace'), r.stderr.decode(errors='replace')


# extraction step: the only textual change made to the preprocessed code
_STATIC_CONST = re.compile(r'\bstatic\s+const\s+((?:unsigned\s+)?\w+)\s+(\w+)\s*=')


def preprocess(src, flags, out):
    rc, o, e = run(['gcc', '-E', '-D__CPROVER', '-std=gnu11'] + flags + [src])
    if rc:
        raise FrontendError(f'preprocess {src}: {e[:800]}')
    # CBMC requires literal initialisers for static scalars; block-scope
    # "static const T X = <constant expr>" becomes "const T X = ..."
    o = _STATIC_CONST.sub(r'const \1 \2 =', o)
    with open(out, 'w') as f:
        f.write(o)
    return out


def compile_gb(srcs, flags, out, workdir, extra=()):
    objs = []
    for s in srcs:
        b = os.path.join(workdir, hashlib.md5(s.encode()).hexdigest()[:10] + '_' + os.path.basename(s))
        i = preprocess(s, flags, b + '.i')
        rc, o, e = run(['goto-cc', '-c', i, '-o', b + '.gb'])
        if rc:
            raise FrontendError(f'goto-cc {s}: {(o + e)[-1500:]}')
        objs.append(b + '.gb')
    if len(objs) == 1:
        shutil.copy(objs[0], out)
        return out
    raise FrontendError('one translation unit at a time')


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'w', 'signed', 'to', 'n', 'fields', 'tag', 'size')

    def __init__(self, k, **kw):
        self.k = k
        self.w = kw.get('w')
        self.signed = kw.get('signed', False)
        self.to = kw.get('to')
        self.n = kw.get('n')
        self.fields = kw.get('fields')
        self.tag = kw.get('tag')
        self.size = None

    def __repr__(self):
        if self.k == 'bv':
            return f"{'i' if self.signed else 'u'}{self.w}"
        if self.k in ('ptr', 'array'):
            return f'{self.k}({self.to},{self.n})'
        return f'{self.k}:{self.tag}'


BOOL = Ty('bool')
VOID = Ty('void')


def bytes_in(t):
    if t.k == 'array' and isinstance(t.n, dict) and t.n['id'] == 'constant':
        e = bytes_in(t.to)
        return e and e * int(t.n['namedSub']['value']['id'], 16)
    return t.w if t.k == 'vec' else t.w // 8 if t.k == 'bv' else None


class Program:
    """functions: name -> list of instructions; symbols; types"""

    def __init__(self, gb):
        """gb: a GOTO binary"""
        try:
            self.funcs, self.syms = gbread.read(gb)
        except (ValueError, IndexError, KeyError) as e:
            raise FrontendError(f'GOTO binary: {e}')
        self._ty = {}
        self._tags = {}
        self._loops = {}
        self._prep = {}

    def never_written(self, ident):
        """file-local object that no function of this translation unit assigns or takes the address of"""
        s = self.syms.get(ident)
        if s is None or not s.get('isFileLocal') and '::' not in ident:
            return False
        if not hasattr(self, '_written'):
            w = set()

            def root(e):
                while e['id'] in ('index', 'member', 'typecast', 'byte_extract_little_endian') and e.get('sub'):
                    e = e['sub'][0]
                return e.get('namedSub', {}).get('identifier', {}).get('id') if e['id'] == 'symbol' else None

            def walk(e):
                if e.get('id') == 'address_of':
                    w.add(root(e['sub'][0]))
                for x in e.get('sub', []):
                    walk(x)
            for f, ins in self.funcs.items():
                if f.startswith('__CPROVER'):
                    continue
                for x in ins:
                    c = x.get('code') or {}
                    if x.get('instructionId') in ('ASSIGN', 'FUNCTION_CALL') and c.get('sub'):
                        w.add(root(c['sub'][0]))
                    for e in (c, x.get('guard') or {}):
                        walk(e)
            self._written = w
        return ident not in self._written

    # ---- types
    def ty(self, t):
        key = id(t)
        r = self._ty.get(key)
        if r is None:
            r = self._mkty(t)
            self._ty[key] = r
        return r

    def _mkty(self, t):
        i = t['id']
        ns = t.get('namedSub', {})
        if i in ('signedbv', 'unsignedbv'):
            return Ty('bv', w=int(ns['width']['id']), signed=(i == 'signedbv'))
        if i == 'c_bool':
            return Ty('bv', w=int(ns['width']['id']), signed=False)
        if i == 'bool':
            return BOOL
        if i == 'pointer':
            return Ty('ptr', to=self._lazy(t['sub'][0]))
        if i == 'array':
            return Ty('array', to=self.ty(t['sub'][0]), n=ns['size'])
        if i in ('struct_tag', 'union_tag'):
            return self.tag(ns['identifier']['id'])
        if i == 'struct':
            return self._struct(t, ns.get('tag', {}).get('id'))
        if i == 'vector':
            return Ty('vec', w=int(ns['size']['namedSub']['value']['id'], 16) * self.ty(t['sub'][0]).w // 8)
        if i in ('empty', 'void'):
            return VOID
        if i == 'code':
            return Ty('code')
        if i == 'c_enum_tag' or i == 'c_enum':
            return Ty('bv', w=32, signed=False)
        return Ty('other', tag=i)

    def _lazy(self, t):
        # pointers to recursive structs must not be expanded eagerly
        if t['id'] in ('struct_tag', 'union_tag'):
            return ('tag', t['namedSub']['identifier']['id'])
        return self.ty(t)

    def pointee(self, ty):
        to = ty.to
        if isinstance(to, tuple):
            to = self.tag(to[1])
        return to

    def tag(self, name):
        r = self._tags.get(name)
        if r is None:
            if name.startswith('tag-vcg_m'):
                n = int(name[len('tag-vcg_m'):]) // 8
                r = Ty('vec', w=n, tag=name)
                self._tags[name] = r
                return r
            t = self.syms[name]['type']
            r = Ty('struct', tag=name, fields=[])
            self._tags[name] = r
            r.fields = self._fields(t)
            if t['id'] == 'union':
                r.k = 'union'
                ws = [bytes_in(f) for _, f in r.fields]
                if any(f.k == 'vec' or f.k == 'array' and f.to.k == 'vec' for _, f in r.fields) and ws[0] and len(set(ws)) == 1:
                    r.k, r.w = 'vec', ws[0]      # views of one vector register
        return r

    def _fields(self, t):
        out = []
        for c in t['namedSub'].get('components', {}).get('sub', []):
            nm = c['namedSub']['name']['id']
            out.append((nm, self.ty(c['namedSub']['type'])))
        return out

    def _struct(self, t, tag):
        return Ty('struct', tag=tag, fields=self._fields(t))

    def func_params(self, f):
        t = self.syms[f]['type']
        out = []
        for p in t['namedSub'].get('parameters', {}).get('sub', []):
            ns = p['namedSub']
            out.append((ns.get('#identifier', {}).get('id'), ns.get('#base_name', {}).get('id'), self.ty(ns['type'])))
        return out

    def ret_type(self, f):
        return self.ty(self.syms[f]['type']['namedSub']['return_type'])

    # ---- control flow
    def prep(self, f):
        r = self._prep.get(f)
        if r is None:
            ins = self.funcs[f]
            loc = {x['locationNumber']: i for i, x in enumerate(ins)}
            heads = {}
            for i, x in enumerate(ins):
                if x['instructionId'] == 'GOTO':
                    x['_t'] = [loc[t] for t in x['targets']]
                    for t in x['_t']:
                        if t <= i:
                            heads[t] = max(heads.get(t, -1), i)
            # back edge from inner region larger than the outer: widen
            r = (ins, heads)
            self._prep[f] = r
        return r
