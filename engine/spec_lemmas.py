"""Mathematical lemmas the contracts rest on, proved in Lean 4 (Mathlib) and re-checked by its kernel on every run."""
import os, re, subprocess, time
from spec_monomial import unit

DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lemmas')
AXIOMS = {'propext', 'Classical.choice', 'Quot.sound'}


def lean_unit(name):
    def make(cfg):
        @unit(cfg, f'lemma {name}')
        def u(cfg, p, r):
            text = open(f'{DIR}/{name}.lean').read()
            ths = re.findall(r'^theorem (\w+)', text, re.M)
            r.backend = 'Lean 4 kernel'
            r.functions = []
            t = time.time()
            src = text + ''.join(f'\n#print axioms {name}.{x}' for x in ths) + '\n'
            q = subprocess.run(['lean', '--stdin'], input=src.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=250)
            out = q.stdout.decode(errors='replace')
            w = (time.time() - t) / max(1, len(ths))
            bad = q.returncode != 0 or 'error' in out
            for x in ths:
                m = re.search(rf"'{name}\.{x}' (does not depend on any axioms|depends on axioms: \[([^\]]*)\])", out)
                ok = bool(m) and not bad and (m.group(2) is None or {a.strip() for a in m.group(2).split(',')} <= AXIOMS)
                r.obls.append((f'{name}/{x}', 'proved' if ok else 'unknown', w, 'lemma'))
            r.covers = 1
            if bad:
                r.error = 'lean: ' + out[-400:]
        return u
    return make


u_rref_facts = lean_unit('Rref')
u_ranks = lean_unit('Ranks')
u_agree = lean_unit('Agree')
u_space_bound = lean_unit('Space')
