"""Which lines of the library's functions the quick checks execute (all shards of every check, one process per shard).
usage: /opt/venv/bin/python tools/linecov.py [C01 ...]"""
import importlib, os, sys, ast
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/pbt')
import run
run.locate_hypothesis()
import core, lib
lib.setup()
M = sys.monitoring
REPO = os.environ.get('VERIF_REPO', '/repo') + '/deepquantum'


def shard(prop, i, n):
    hit = set()
    def line(code, no):
        if code.co_filename.startswith(REPO):
            hit.add((code.co_filename, no))
        return M.DISABLE
    M.use_tool_id(1, 'cov')
    M.register_callback(1, M.events.LINE, line)
    M.set_events(1, M.events.LINE)
    mod = importlib.import_module('props.' + prop.lower())
    s = core.Shard(mod, 'quick', 1, i, n, mod.EXAMPLES['quick'])
    s.run()
    if s.failure:
        print(prop, 'FAILURE', s.failure)
    return hit


props = sys.argv[1:] or ['C%02d' % i for i in range(1, 34)]
hit = set()
per = {}
for p in props:
    for r in core.collect([core.spawn(lambda i=i: shard(p, i, 6)) for i in range(6)]):
        got = r[1] if r[0] == 'ok' else print(r[1]) or set()
        hit |= got
        for f, no in got:
            per.setdefault(f'{os.path.relpath(f, REPO)}:{no}', set()).add(p)
import json
json.dump({k: sorted(v) for k, v in per.items()}, open('/tmp/linecov.json', 'w'))
for root, _, files in sorted(os.walk(REPO)):
    if 'tests' in root:
        continue
    for f in sorted(files):
        path = os.path.join(root, f)
        if not f.endswith('.py'):
            continue
        src = open(path).read()
        lines = src.splitlines()
        def stmts(body):
            for st in body:
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                    continue
                if not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    yield st.lineno
                for k in ('body', 'orelse', 'finalbody'):
                    yield from stmts(getattr(st, k, []) if isinstance(getattr(st, k, []), list) else [])
                for h in getattr(st, 'handlers', []):
                    yield from stmts(h.body)
        want = set()
        for n in ast.walk(ast.parse(src)):
            if isinstance(n, ast.FunctionDef):
                want |= set(stmts(n.body))
        miss = sorted(x for x in want if (path, x) not in hit)
        print(f'== {path}: {len(want) - len(miss)}/{len(want)}')
        for x in miss:
            print(f'{x:5d} {lines[x-1].rstrip()[:120]}')
