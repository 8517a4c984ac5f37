#!/usr/bin/env python3
"""Mutation testing of the checks: small automatic changes of the library in scratch copies, each run against the quick checks that execute the
changed line (see linecov.py) until one reports a violation. Survivors are listed for review.
With --when, each change is active only under a random condition on the call (register size, wire placement, angle, history, ...).
usage: mutate.py [--when] [-n COUNT] [-j N] [--seed S] [--out FILE] [--files qmath.py,...]"""
import argparse, ast, concurrent.futures as cf, copy, json, os, random, shutil, subprocess, tempfile, threading, time
ap = argparse.ArgumentParser()
ap.add_argument('-n', type=int, default=100)
ap.add_argument('-j', type=int, default=2)
ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--out', default='/tmp/mutants.jsonl')
ap.add_argument('--files', default='')
ap.add_argument('--cpus', default='')
ap.add_argument('--when', action='store_true')
a = ap.parse_args()
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cov = json.load(open('/tmp/linecov.json'))
LIB = '/repo/deepquantum'
NAMES = {'sin': 'cos', 'cos': 'sin', 'min': 'max', 'max': 'min', 'rx': 'ry', 'ry': 'rz', 'rz': 'rx', 'left': 'right', 'reversed': 'list', 'deepcopy': 'copy'}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.Add], ast.Pow: [ast.Mult], ast.MatMult: ['swap']}


def variants(n):
    """functions that change the node in place and describe the change"""
    out = []
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        for o in CMP.get(type(n.ops[0]), []):
            out.append(lambda n, o=o: n.ops.__setitem__(0, o()))
    if isinstance(n, (ast.BinOp, ast.AugAssign)):
        for o in BIN.get(type(n.op), []):
            if o == 'swap':
                if isinstance(n, ast.BinOp):
                    def sw(n): n.left, n.right = n.right, n.left
                    out.append(sw)
            else:
                out.append(lambda n, o=o: setattr(n, 'op', o()))
    if isinstance(n, ast.BoolOp):
        out.append(lambda n: setattr(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And()))
        for k in range(len(n.values)):
            out.append(lambda n, k=k: n.values.__setitem__(k, ast.Constant(isinstance(n.op, ast.And))))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        out.append(lambda n: setattr(n, 'op', ast.UAdd()))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        out.append(lambda n: setattr(n, 'operand', ast.UnaryOp(ast.Not(), n.operand)))
    if isinstance(n, ast.Constant):
        if isinstance(n.value, bool):
            out.append(lambda n: setattr(n, 'value', not n.value))
        elif isinstance(n.value, int):
            out.append(lambda n: setattr(n, 'value', n.value + 1))
            out.append(lambda n: setattr(n, 'value', n.value - 1))
        elif isinstance(n.value, float):
            out.append(lambda n: setattr(n, 'value', n.value * 2))
            out.append(lambda n: setattr(n, 'value', -n.value))
        elif isinstance(n.value, complex) and n.value:
            out.append(lambda n: setattr(n, 'value', -n.value))
        elif isinstance(n.value, str) and ',' in n.value and '->' in n.value:
            l, r = n.value.split('->')
            if len(r) > 1:
                out.append(lambda n, l=l, r=r: setattr(n, 'value', l + '->' + r[1] + r[0] + r[2:]))
    if isinstance(n, ast.Attribute) and n.attr in NAMES:
        out.append(lambda n: setattr(n, 'attr', NAMES[n.attr]))
    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in NAMES:
        out.append(lambda n: setattr(n, 'id', NAMES[n.id]))
    return out


DROP = ('conj', 'clone', 'detach', 'copy', 'contiguous', 'reshape', 'real')


def dependent(s, t):
    """do two neighbouring statements touch a common name, one of them writing it (self.x counts as a name)"""
    def names(s):
        w, r = set(), set()
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and n.id != 'self':
                (w if isinstance(n.ctx, ast.Store) else r).add(n.id)
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                (w if isinstance(n.ctx, ast.Store) else r).add('self.' + n.attr)
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                w |= {m.id for m in ast.walk(n.value) if isinstance(m, ast.Name)}
            if isinstance(n, ast.Call) and isinstance(s, ast.Expr):
                w |= {m.id for m in ast.walk(n) if isinstance(m, ast.Name)}
        return w, r
    (w1, r1), (w2, r2) = names(s), names(t)
    return bool(w1 & (w2 | r2) or w2 & r1)


def spots(tree):
    """(line, apply) pairs over the bodies of functions; apply mutates the tree it was made for"""
    for f in ast.walk(tree):
        if not isinstance(f, ast.FunctionDef):
            continue
        for st in ast.walk(f):
            for field, val in ast.iter_fields(st):
                if isinstance(val, list):
                    for i, x in enumerate(val):
                        if isinstance(x, ast.stmt) and not isinstance(x, (ast.FunctionDef, ast.Return)) and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)):
                            yield x.lineno, 'delete', (lambda l=val, i=i: l.__setitem__(i, ast.copy_location(ast.Pass(), l[i])))
                            if i + 1 < len(val) and isinstance(x, (ast.Assign, ast.AugAssign, ast.Expr)) and isinstance(val[i + 1], (ast.Assign, ast.AugAssign, ast.Expr)):
                                def swap(l=val, i=i): l[i], l[i + 1] = l[i + 1], l[i]
                                if dependent(x, val[i + 1]):
                                    yield x.lineno, 'swap', swap
                        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in DROP and not isinstance(x.func.value, ast.Name):
                            yield x.lineno, 'drop', (lambda l=val, i=i, x=x: l.__setitem__(i, x.func.value))
                    if field == 'args' and isinstance(st, ast.Call) and len(val) >= 2:
                        def swa(l=val): l[0], l[1] = l[1], l[0]
                        yield st.lineno, 'args', swa
                    if field == 'elts' and len(val) >= 2:
                        def swe(l=val): l[0], l[1] = l[1], l[0]
                        yield st.lineno, 'elts', swe
                elif isinstance(val, ast.Call) and isinstance(val.func, ast.Attribute) and val.func.attr in DROP and not (isinstance(val.func.value, ast.Name) and val.func.value.id in ('torch', 'copy', 'np')):
                    yield val.lineno, 'drop', (lambda st=st, field=field, v=val: setattr(st, field, v.func.value))
            if isinstance(st, (ast.expr, ast.AugAssign)):
                for k, v in enumerate(variants(st)):
                    yield st.lineno, 'change', (lambda st=st, v=v: v(st))


def mutants():
    out = []
    for root, _, files in sorted(os.walk(LIB)):
        for f in sorted(files):
            p = os.path.relpath(os.path.join(root, f), LIB)
            if not f.endswith('.py') or 'tests' in p or (a.files and f not in a.files.split(',')):
                continue
            src = open(os.path.join(LIB, p)).read()
            text = src.splitlines()
            for k, (line, kind, _) in enumerate(spots(ast.parse(src))):
                # skipped: tests for an operation without register (any error will do there)
                if f'{p}:{line}' in cov and not ('nqubits' in text[line - 1] and '-1' in text[line - 1]):
                    out.append((p, line, kind, k))
    return out


# conditions on a call; o is the object or None, a the arguments. Each is one a maintainer's special case could have.
WHEN = r"""
import torch as _t
_calls = {'n': 0, 'last': None}
def _ints(x):
    return [i for i in (x if isinstance(x, (list, tuple)) else [x]) if isinstance(i, int) and not isinstance(i, bool)]
def _when(key, o, a, k):
    r = bool(_holds(key, o, a, k))
    if r and not _calls.get('hit'):
        _calls['hit'] = open(__file__ + '.hit', 'a')
    return r
def _holds(key, o, a, k):
    a = list(a) + list(k.values())
    d = getattr(o, '__dict__', {})
    n = d.get('nqubits', d.get('n_qubits'))
    w = d.get('wires')
    p = d.get('params')
    ts = [x for x in a if isinstance(x, _t.Tensor)] + [y for x in a if isinstance(x, (list, tuple)) for y in x if isinstance(y, _t.Tensor)]
    if isinstance(p, _t.Tensor):
        ps = p.detach().reshape(-1).tolist()
    else:
        ps = [float(x.detach().reshape(-1)[0]) if isinstance(x, _t.Tensor) else x for x in a if isinstance(x, float) or isinstance(x, _t.Tensor) and x.numel() == 1 and not x.is_complex()]
    if n is None:
        n = next((x for x in a if isinstance(x, int) and not isinstance(x, bool)), None)
    wl = w if isinstance(w, list) else None
    if isinstance(p, _t.Tensor):
        ts = ts + [p]
    kind, v = key
    _calls['n'] += 1
    if kind == 'n': return n == v
    if kind == 'n>': return isinstance(n, int) and n > v
    if kind == 'unsorted': return wl is not None and len(_ints(wl)) == len(wl) and wl != sorted(wl)
    if kind == 'gap': return wl is not None and len(wl) >= 2 and len(_ints(wl)) == len(wl) and max(wl) - min(wl) == v
    if kind == 'lastwire': return isinstance(n, int) and (w == n - 1 or wl is not None and n - 1 in wl)
    if kind == 'len': return wl is not None and len(wl) == v or any(isinstance(x, (list, tuple)) and len(x) == v for x in a)
    if kind == 'big': return any(abs(x) > v for x in ps)
    if kind == 'neg': return bool(ps) and ps[0] < -0.5
    if kind == 'zero': return any(x == 0 for x in ps)
    if kind == 'small': return any(0 < abs(x) < 0.05 for x in ps)
    if kind == 'pgrad': return isinstance(p, _t.Tensor) and p.requires_grad
    if kind == 'tgrad': return any(x.requires_grad for x in ts)
    if kind == 'nograd': return not _t.is_grad_enabled()
    if kind == 'strided': return any(not x.is_contiguous() for x in ts)
    if kind == 'dim': return any(x.dim() and x.shape[0] == v for x in ts)
    if kind == 'bond': return any(x.dim() == 3 and max(x.shape[0], x.shape[2]) >= v for x in ts)
    if kind == 'hole': return any(x.numel() > 1 and bool((x.detach() == 0).any()) for x in ts)
    if kind == 'faint': return any(x.numel() > 1 and 0 < float(x.detach().abs().max()) < 0.3 for x in ts)
    if kind == 'double': return any(x.dtype in (_t.float64, _t.complex128) for x in ts)
    if kind == 'real': return any(not x.is_complex() and x.numel() > 1 for x in ts)
    if kind == 'again':
        c = d.get('_again', 0)
        if o is not None: d['_again'] = c + 1
        return c >= v
    if kind == 'every': return _calls['n'] % v == 0
    if kind == 'other':
        l, _calls['last'] = _calls['last'], (type(o).__name__, n)
        return l is not None and l != (type(o).__name__, n)
    if kind == 'gates': return len(d.get('gate', [])) > v
    return False
"""
KEYS = [('n', v) for v in (1, 2, 3, 4, 5, 6)] + [('n>', v) for v in (4, 5, 6, 7)] + [('unsorted', 0), ('gap', 2), ('gap', 3), ('gap', 4), ('lastwire', 0), ('len', 1), ('len', 2), ('len', 3), ('len', 4),
       ('big', 3.3), ('big', 6.4), ('neg', 0), ('zero', 0), ('small', 0), ('pgrad', 0), ('tgrad', 0), ('nograd', 0), ('strided', 0), ('dim', 1), ('dim', 4), ('dim', 8), ('dim', 16), ('bond', 3), ('bond', 5),
       ('hole', 0), ('faint', 0), ('double', 0), ('real', 0), ('again', 1), ('again', 2), ('every', 5), ('every', 11), ('other', 0), ('gates', 4), ('gates', 10)]

FREE = ('n', 'n>', 'len', 'tgrad', 'nograd', 'strided', 'dim', 'hole', 'faint', 'double', 'real', 'every')      # those that need no object


def guarded(base, tree, new, key):
    """base with the one changed function active only when the condition holds; None if the change is not in exactly one plain function"""
    def funcs(t):
        return {(c.name if c else '', f.name): (f, c) for c in [None] + [x for x in t.body if isinstance(x, ast.ClassDef)] for f in (c or t).body if isinstance(f, ast.FunctionDef)}
    b, m = ast.parse(base), ast.parse(new)
    fb, fm = funcs(b), funcs(m)
    diff = [q for q in fb if q in fm and ast.dump(fb[q][0]) != ast.dump(fm[q][0])]
    if len(diff) != 1 or diff[0][1] == '__init__' and key[0] in ('again',):
        return None
    (f, c), (g, _) = fb[diff[0]], fm[diff[0]]
    if f.decorator_list:
        return None
    name = f.name
    stem = name.strip('_')
    f.name, g.name = stem + '_plain_', stem + '_changed_'
    body = (c or b).body
    i = body.index(f)
    pre = 'self.' if c else ''
    me = 'self, ' if c else ''
    w = ast.parse(f'def {name}({me}*a, **k):\n    return ({pre}{g.name} if _when({key!r}, {"self" if c else None}, a, k) else {pre}{f.name})(*a, **k)').body[0]
    body[i + 1:i + 1] = [g, w]
    ast.fix_missing_locations(b)
    return WHEN + ast.unparse(b)


lock = threading.Lock()
hits, cost = {}, {}


def run(m):
    p, line, kind, k = m
    src = open(os.path.join(LIB, p)).read()
    tree = ast.parse(src)
    base = ast.unparse(tree)
    list(spots(tree))[k][2]()
    ast.fix_missing_locations(tree)
    try:
        new = ast.unparse(tree)
    except Exception:
        return None
    if new == base:
        return None
    key = None
    if a.when:
        key = random.Random(f'{a.seed}/{k}/{p}').choice([x for x in KEYS if p != 'gates/qmath.py' or x[0] in FREE])
    import difflib
    d = [l for l in difflib.unified_diff(base.splitlines(), new.splitlines(), lineterm='', n=0) if l[:3] not in ('---', '+++')]
    if a.when:
        new = guarded(base, tree, new, key)
        if new is None:
            return None
    W = tempfile.mkdtemp(prefix='mut.')
    r = dict(when=key, file=p, line=line, kind=kind, k=k, diff=d[:8], tried=[])
    try:
        shutil.copytree(LIB, W + '/deepquantum', ignore=shutil.ignore_patterns('__pycache__', 'tests'))
        open(W + '/deepquantum/' + p, 'w').write(new + '\n')
        todo = cov[f'{p}:{line}']
        while todo:
            with lock:
                c = max(todo, key=lambda c: (hits.get(c, 0) + 0.5) / (cost.get(c, 0) + 8))
            todo = [x for x in todo if x != c]
            t = time.time()
            try:
                q = subprocess.run((['taskset', '-c', a.cpus] if a.cpus else []) + [here + '/check', c, '--no-evidence'], env=dict(os.environ, VERIF_REPO=W, VERIF_SEED=str(a.seed)), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=600)
                rc = q.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            with lock:
                cost[c] = cost.get(c, 0) + time.time() - t
                hits[c] = hits.get(c, 0) + (rc == 1)
            r['tried'].append(c)
            if rc != 0:
                r['caught'] = c
                if rc != 1:
                    r['odd'] = rc
                break
        r['reached'] = not a.when or os.path.exists(W + '/deepquantum/' + p + '.hit')
    finally:
        shutil.rmtree(W)
    return r


ms = mutants()
print(len(ms), 'mutants', flush=True)
random.Random(a.seed).shuffle(ms)
with cf.ThreadPoolExecutor(a.j) as ex, open(a.out, 'a') as out:
    n = surv = 0
    for r in ex.map(run, ms[:a.n]):
        if r is None:
            continue
        n += 1
        out.write(json.dumps(r) + '\n')
        out.flush()
        if 'caught' not in r:
            surv += 1
            print('SURVIVED' if r['reached'] else 'NEVER ACTIVE', r['when'], r['file'], r['line'], r['kind'], *r['diff'], sep='\n  ', flush=True)
        elif 'odd' in r:
            print('ODD', r['odd'], r['caught'], r['file'], r['line'], *r['diff'], sep='\n  ', flush=True)
print(n, 'run,', surv, 'survived', flush=True)
