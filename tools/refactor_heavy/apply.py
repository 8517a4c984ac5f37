#!/usr/bin/env python3
"""Copy /repo to DEST and replace many functions by differently written ones that
compute the same thing (einsum/tensordot instead of permute/reshape, vectorised
predicates, other SVD routine, non-mutating evolution ...).  Every check has to
stay quiet on DEST (VERIF_REPO=DEST ./check Cxx)."""
import os, shutil, subprocess, sys, pathlib
dest = pathlib.Path(sys.argv[1])
here = pathlib.Path(__file__).resolve().parent
if dest.exists(): sys.exit(f'{dest} exists')
subprocess.run(['cp', '-a', os.environ.get('VERIF_REPO', '/repo'), str(dest)], check=True)
for f, rel in (('qmath', 'gates/qmath.py'), ('qtensornetwork', 'gates/qtensornetwork.py'),
               ('qoperator', 'gates/qoperator.py'), ('qlayers', 'layers/qlayers.py'),
               ('qcircuit', 'gates/qcircuit.py'), ('quanv', 'nn/modules/quanv.py'),
               ('qembedding', 'embeddings/qembedding.py'), ('qgate', 'gates/qgate.py')):
    src = here / (f + '.txt')
    if not src.exists(): continue
    p = dest / 'deepquantum' / rel
    t = p.read_text()
    i = t.find('\nif __name__')
    if i < 0: i = len(t)
    p.write_text(t[:i] + '\n\n' + src.read_text() + '\n' + t[i:])
