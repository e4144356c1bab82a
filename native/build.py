"""Builds the real code of one configuration into a shared object (scratch dir)."""
import os, subprocess, sys, tempfile, ctypes
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
OPTS = ['VX_RED', 'VX_INV', 'VX_BR', 'VX_BR16', 'VX_SAMP', 'VX_RB', 'VX_SHA3', 'VX_PROG']


def incdir(impl):
    return {'ref': f'{REPO}/Reference_Implementation/include',
            'avx2': f'{REPO}/Optimized_Implementation/avx2/include', 'neon': f'{REPO}/Optimized_Implementation/neon/include'}[impl]


def libdir(impl):
    return {'ref': f'{REPO}/Reference_Implementation/lib',
            'avx2': f'{REPO}/Optimized_Implementation/avx2/lib', 'neon': f'{REPO}/Optimized_Implementation/neon/lib'}[impl]


def build(impl, cat, var, out, san=False, opt='-O3'):
    """returns path of .so or None"""
    lib = libdir(impl)
    srcs = sorted(f'{lib}/{f}' for f in os.listdir(lib) if f.endswith('.c'))
    fin = {'1': 'sha3_256_inc_finalize', '3': 'sha3_384_inc_finalize', '5': 'sha3_512_inc_finalize'}[cat]
    flags = [opt, f'-DVX_FIN={fin}', '-g', '-fPIC', '-DNDEBUG', '-w', '-std=gnu11', '-march=native', '-mavx2', '-fno-strict-aliasing' if False else '-fPIC',
             '-fpermissive', '-I', incdir(impl), f'-DCATEGORY_{cat}', f'-D{var}=1']
    if impl == 'neon':       # the intrinsics by their definitions
        flags += ['-flax-vector-conversions', '-I', f'{os.path.dirname(HERE)}/engine/shadow_neon']
    if san:
        flags += ['-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=undefined']
    objs = []
    procs = []
    for s in srcs:
        o = f'{out}.{os.path.basename(s)}.o'
        procs.append((s, o, subprocess.Popen(['gcc'] + flags + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for s, o, p in procs:
        m = p.communicate()[0]
        if p.returncode:
            return None, f'{s}: {m.decode()[:2000]}'
        objs.append(o)
    defs = []
    wo = f'{out}.wrap.o'
    r = subprocess.run(['gcc'] + flags + [f'-D{d}' for d in OPTS] + ['-c', f'{HERE}/wrap.c', '-o', wo], capture_output=True)
    if r.returncode or b'implicit' in r.stderr:
        for d in OPTS:
            t = subprocess.run(['gcc', '-Werror=implicit-function-declaration'] + flags + [f'-D{d}', '-c', f'{HERE}/wrap.c', '-o', wo], capture_output=True)
            if t.returncode == 0:
                defs.append(d)
    else:
        defs = list(OPTS)
    # only keep wrappers whose targets exist
    ok = []
    for d in defs:
        t = subprocess.run(['gcc', '-Werror=implicit-function-declaration'] + [f for f in flags if f != '-w'] + [f'-D{d}', '-fsyntax-only', f'{HERE}/wrap.c'], capture_output=True)
        if t.returncode == 0:
            ok.append(d)
    for opts in (ok, [d for d in ok if d != 'VX_PROG']):
        r = subprocess.run(['gcc'] + flags + [f'-D{d}' for d in opts] + ['-c', f'{HERE}/wrap.c', '-o', wo], capture_output=True)
        if r.returncode == 0:
            w = [f'-Wl,--wrap=expand_digest_to_fixed_weight,--wrap={fin},-z,defs', '-lm'] if 'VX_PROG' in opts else []
            r = subprocess.run(['gcc'] + flags + ['-shared', '-o', out, wo] + objs + w, capture_output=True)
            if r.returncode == 0:
                ok = opts
                break
    for o in objs + [wo]:
        os.unlink(o)
    if r.returncode:
        return None, r.stderr.decode()[:2000]
    return out, ok


if __name__ == '__main__':
    d = tempfile.mkdtemp()
    import time
    t = time.time()
    print(build('ref', '1', 'BALANCED', d + '/l.so'), time.time() - t)
    t = time.time()
    print(build('avx2', '1', 'BALANCED', d + '/l2.so'), time.time() - t)
