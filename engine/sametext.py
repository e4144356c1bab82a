"""Where a unit is run in one parameter set for several: is the program the same in the others?

The verdict of a unit transfers to another parameter set of the same category (for the hash functions and the known-answer
generators: of any category) when the preprocessed project text of its translation unit is the same, function prototypes and
functions nobody mentions left out.  Where it is not, the unit is run in that set as well."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import goto

NODIM = ('fips202', 'keccakf1600', 'kat_util', 'kat_nist')      # no dimension occurs in these
_LINE = re.compile(r'# \d+ "([^"]*)"')
_ID = re.compile(r'[A-Za-z_]\w*')


def project_text(cfg, base):
    o = subprocess.run(['gcc', '-E', '-D__CPROVER', '-std=gnu11'] + cfg.cppflags(base) + [cfg.src(base)], capture_output=True, text=True)
    if o.returncode:
        return None
    out, keep = [], False
    root = os.path.realpath(goto.REPO)
    for l in o.stdout.split('\n'):
        m = _LINE.match(l)
        if m:
            keep = os.path.realpath(m.group(1)).startswith(root) or not os.path.isabs(m.group(1))
        elif keep:
            out.append(l)
    return '\n'.join(out)


def chunks(text):
    """top-level declarations and definitions: [(is function, name, text)]"""
    toks = re.findall(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|[A-Za-z_]\w*|[0-9][\w.]*|[^\s\w]', text)
    r, cur, depth, par, fn = [], [], 0, 0, False
    for t in toks:
        cur.append(t)
        if t == '(':
            par += 1
        elif t == ')':
            par -= 1
        elif t == '{':
            if depth == 0 and len(cur) > 1 and cur[-2] == ')':
                fn = True
            depth += 1
        elif t == '}':
            depth -= 1
        if depth == 0 and par == 0 and (t == ';' or (t == '}' and fn)):
            name = next((cur[i - 1] for i, x in enumerate(cur) if x == '(' and i), '') if fn or '(' in cur else ''
            r.append((fn, name, cur))
            cur, fn = [], False
    if cur:
        r.append((False, '', cur))
    return r


def normal(text):
    cs = chunks(text)
    cs = [c for c in cs if c[0] or c[2][0] == 'typedef' or not ('(' in c[2] and '=' not in c[2] and '{' not in c[2])]       # without prototypes
    while True:
        used = {}
        for q, (f, n, ts) in enumerate(cs):
            for t in set(ts):
                if _ID.fullmatch(t):
                    used.setdefault(t, set()).add(q)
        dead = [q for q, (f, n, ts) in enumerate(cs) if f and 'inline' in ts[:6] and used.get(n, set()) <= {q}]
        if not dead:
            return [' '.join(ts) for f, n, ts in cs]
        cs = [c for q, c in enumerate(cs) if q not in set(dead)]


def extra(units, sets):
    """(units to add, number of unit/set pairs covered by equal text)"""
    groups = {}
    for m, f, i, c, v, bases, lim in units:
        if bases and m != 'spec_lemmas':
            groups.setdefault((m, f, i, tuple(bases)), ({}, lim))[0][(c, v)] = True
    want = []
    for (m, f, i, bases), (have, lim) in groups.items():
        for s in sets:
            if s in have:
                continue
            rep = next((h for h in have if h[0] == s[0]), None)
            if rep is None and all(b in NODIM for b in bases):
                rep = next(iter(have))
            if rep is not None:
                want.append((m, f, i, bases, lim, s, rep))
    keys = {(i, x, b) for m, f, i, bases, lim, s, rep in want for b in bases for x in (s, rep)}

    def one(k):
        i, (c, v), b = k
        t = project_text(goto.Config(i, c, v), b)
        return k, (None if t is None else normal(t))
    with ThreadPoolExecutor(8) as ex:
        T = dict(ex.map(one, keys))
    add, same = [], 0
    for m, f, i, bases, lim, s, rep in want:
        if all(T[(i, s, b)] is not None and T[(i, s, b)] == T[(i, rep, b)] for b in bases):
            same += 1
        else:
            add.append((m, f, i, s[0], s[1], list(bases), lim))
    return add, same
