"""Entry point of every check: ./check Cxx [--tier ...] [--replay FILE]."""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)


def locate_hypothesis():
    """hypothesis is pure Python; take it from the tool venv, else unpack the wheels into a scratch folder."""
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    site = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
    if os.path.isdir(os.path.join(site, 'hypothesis')):
        sys.path.append(site)   # at the end: torch, numpy, ... still come from the repository's venv
        return
    import glob
    import tempfile
    import zipfile
    d = tempfile.mkdtemp(prefix='hyp')
    for pat in ('hypothesis-*', 'sortedcontainers-*', 'attrs-*'):
        for w in sorted(glob.glob('/opt/veriftools/wheels/' + pat))[:1]:
            zipfile.ZipFile(w).extractall(d)
    sys.path.append(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--examples', type=int)
    ap.add_argument('--shards', type=int)
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    locate_hypothesis()
    import core
    return core.run(a, VERIF)


if __name__ == '__main__':
    sys.exit(main())
