"""Writes /verif/seeded/<id>/ from the bug tables in tools/bugs*.py (kept so that the patches can be regenerated when /repo moves).
usage: python3 tools/mkseeded.py [ID ...]"""
import difflib, glob, importlib.util, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
DEMO = '''#!/bin/sh
# run with cwd /repo
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
G = '''import sys, math
import numpy as np
import torch
import deepquantum as dq
from deepquantum.gates import qoperator as op, qtensornetwork as tn, qmath as qm, qcircuit as qc, qgate as qg
from deepquantum.layers import qlayers as ql, qlayer as qf
from deepquantum.embeddings import qembedding as em, qstate as qs
torch.manual_seed(0)


def rand_state(N):
    v = torch.randn(1, 2 ** N) + 1j * torch.randn(1, 2 ** N)
    return v / v.norm()


def close(a, b, tol=1e-4):
    ok = float((a - b).abs().max()) < tol
    if not ok:
        print('differs:', float((a - b).abs().max()))
        sys.exit(1)


def rejected(f):
    try:
        f()
    except Exception:
        return
    print('accepted')
    sys.exit(1)

'''


def apply(src, edits, what):
    for scope, old, new in edits:
        p = 0
        for s in (scope if isinstance(scope, list) else [scope]):
            p = src.index(s, p)
        q = src.find(old, p)
        if q < 0:
            raise SystemExit(f'{what}: cannot find {old!r}')
        src = src[:q] + new + src[q + len(old):]
    return src


# these change only lines added by our own fix commits, so they are kept apart
OWN_LINES = {'c09-conjugate-real-bra', 'c09-small-phase', 'c27-product-overlap', 'c10-cu3-order', 'c10-restore-detached', 'c11-mid-state-alias', 'c11-sign-last', 'c16-partial-trace-list', 'c24-stride-gap', 'c14-mixed-list', 'c16-caller-list-sorted'}
bugs = {}
for f in sorted(glob.glob(os.path.join(here, 'tools', 'bugs*.py'))):
    sp = importlib.util.spec_from_file_location('b', f)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    for b in m.BUGS:
        assert b['id'] not in bugs, b['id']
        bugs[b['id']] = b
for i, b in bugs.items():
    if len(sys.argv) > 1 and i not in sys.argv[1:]:
        continue
    d = os.path.join(here, 'tools/regress' if i in OWN_LINES else 'seeded', i)
    os.makedirs(d, exist_ok=True)
    out = ''
    files = {}
    for f, *e in b['edits']:
        files.setdefault(f, []).append(e)
    for f, edits in files.items():
        a = open(os.path.join(REPO, f), encoding='utf-8').read()
        c = apply(a, edits, i)
        out += f'diff --git a/{f} b/{f}\n' + ''.join(x if x.endswith('\n') else x + '\n\\ No newline at end of file\n' for x in difflib.unified_diff(
            a.splitlines(True), c.splitlines(True), 'a/' + f, 'b/' + f))
    open(os.path.join(d, 'patch.diff'), 'w', encoding='utf-8').write(out)
    open(os.path.join(d, 'demo.py'), 'w').write(G + b['demo'].lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
print(len(bugs), 'bugs')
