"""Reads a GOTO binary (version 6) directly; the irep sharing of the file is kept.
The result has the shape of goto-instrument's JSON output (checked against it by tools/gbcheck.py)."""
KINDS = ['NO_INSTRUCTION_TYPE', 'GOTO', 'ASSUME', 'ASSERT', 'OTHER', 'SKIP', 'START_THREAD', 'END_THREAD', 'LOCATION', 'END_FUNCTION',
         'ATOMIC_BEGIN', 'ATOMIC_END', 'SET_RETURN_VALUE', 'ASSIGN', 'DECL', 'DEAD', 'FUNCTION_CALL', 'THROW', 'CATCH', 'INCOMPLETE_GOTO']


class Reader:
    def __init__(self, data):
        self.d, self.p = data, 0
        self.strings, self.ireps = {}, {}

    def word(self):
        d, p = self.d, self.p
        r = s = 0
        while True:
            b = d[p]
            p += 1
            r |= (b & 0x7f) << s
            s += 7
            if not b & 0x80:
                break
        self.p = p
        return r

    def gbstring(self):
        d, p = self.d, self.p
        o = bytearray()
        while d[p]:
            if d[p] == 0x5c:
                p += 1
            o.append(d[p])
            p += 1
        self.p = p + 1
        return o.decode('utf-8', 'replace')

    def string(self):
        n = self.word()
        r = self.strings.get(n)
        if r is None:
            r = self.strings[n] = self.gbstring()
        return r

    def irep(self):
        """iterative: nesting can be deep"""
        n = self.word()
        r = self.ireps.get(n)
        if r is not None:
            return r
        root = {'id': self.string()}
        stack = [(n, root)]
        d = self.d
        while stack:
            k, cur = stack[-1]
            c = d[self.p]
            self.p += 1
            if c == 0:
                self.ireps[k] = cur
                stack.pop()
                continue
            if c == 0x53:                # S
                dst, key = cur.setdefault('sub', []), None
            elif c in (0x4e, 0x43):      # N, C
                key = self.string()
                dst = cur.setdefault('namedSub', {})
            else:
                raise ValueError('irep')
            m = self.word()
            x = self.ireps.get(m)
            if x is None:
                x = {'id': self.string()}
                stack.append((m, x))
            if key is None:
                dst.append(x)
            else:
                dst[key] = x
        return root


def location(x):
    return {k.replace('working_directory', 'workingDirectory'): v['id'] for k, v in x.get('namedSub', {}).items() if not k.startswith('#')}


def read(path):
    with open(path, 'rb') as f:
        r = Reader(f.read())
    if r.d[:4] != b'\x7fGBF':
        raise ValueError('not a GOTO binary')
    r.p = 4
    v = r.word()
    if v != 6:
        raise ValueError(f'GOTO binary version {v}')
    syms = {}
    for _ in range(r.word()):
        ty, val, loc = r.irep(), r.irep(), r.irep()
        name, module, base, mode, pretty = (r.string() for _ in range(5))
        r.word()
        flags = r.word()
        bits = ['isWeak', 'isType', 'isProperty', 'isMacro', 'isExported', 'isInput', 'isOutput', 'isStateVar', 'isParameter', 'isAuxiliary',
                'binding', 'isLvalue', 'isStaticLifetime', 'isThreadLocal', 'isFileLocal', 'isExtern', 'isVolatile']
        s = {'name': name, 'baseName': base, 'mode': mode, 'module': module, 'prettyName': pretty, 'type': ty, 'value': val, 'flags': flags}
        n = len(bits)
        for q, b in enumerate(bits):
            s[b] = bool(flags >> (n - 1 - q) & 1)
        syms[name] = s
    funcs = {}
    number = 0
    for _ in range(r.word()):
        name = r.gbstring()
        ins, at, jumps = [], {}, []
        for _ in range(r.word()):
            code, loc = r.irep(), r.irep()
            kind = KINDS[r.word()]
            guard = r.irep()
            tn = r.word()
            x = {'instructionId': kind, 'locationNumber': number, 'sourceLocation': location(loc)}
            if code['id'] != 'nil':
                x['code'] = code
            if kind in ('GOTO', 'ASSUME', 'ASSERT') and guard['id'] != 'nil':
                x['guard'] = guard
            if tn != 0xffffffff:
                at[tn] = number
            t = [r.word() for _ in range(r.word())]
            for _ in range(r.word()):
                r.string()
            if t:
                jumps.append((x, t))
            ins.append(x)
            number += 1
        for x, t in jumps:
            x['targets'] = [at[q] for q in t]
        funcs[name] = ins
    if r.p != len(r.d):
        raise ValueError('trailing bytes in GOTO binary')
    return funcs, syms
