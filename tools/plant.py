"""Confirms planted bugs in scratch copies of /repo and runs every check against them.
usage: python3 tools/plant.py [--no-tests] [--only-own] [--tests-only] [-j N] ID ...   (root: uses a private mount namespace to lay the copy over /repo)"""
import argparse, concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('ids', nargs='*')
ap.add_argument('--no-tests', action='store_true')
ap.add_argument('--only-own', action='store_true')
ap.add_argument('--tests-only', action='store_true', help='stable tests, no checks')
ap.add_argument('--seed', default='1')
ap.add_argument('-j', type=int, default=2)
a = ap.parse_args()
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
resfile = os.path.join(here, 'tools', 'plant_results.json')


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)


def over(copy, cmd, **k):
    return sh(['unshare', '-m', 'bash', '-c', f'mount --bind {copy} /repo && cd /repo && {cmd}'], **k)


def one(i):
    r = {}
    d = os.path.join(here, 'seeded', i)
    d = d if os.path.isdir(d) else os.path.join(here, 'tools/regress', i)
    prop = json.load(open(d + '/meta.json'))['property']
    W = tempfile.mkdtemp(prefix='plant.')
    try:
        cp = W + '/repo'
        sh(['cp', '-a', '/repo', cp])
        shutil.copytree(d, W + '/demo')
        r['demo_clean'] = sh(['sh', W + '/demo/demo.sh'], cwd='/repo', timeout=300).returncode
        p = sh(['git', '-C', cp, 'apply', d + '/patch.diff'])
        if p.returncode:
            return i, dict(r, error=p.stdout)
        p = over(cp, f'sh {W}/demo/demo.sh', timeout=300)
        r['demo_bug'] = p.returncode
        r['demo_out'] = p.stdout[-200:]
        r['build'] = over(cp, 'bash /opt/vp/build.sh').returncode
        if not a.no_tests:
            over(cp, f'bash /opt/vp/test.sh {W}/out.json')
            t = open(W + '/out.json').read()
            o = json.loads(t)
            passed = set(o.get('passed', o.get('pass', [])))
            r['tests_missing'] = sorted(stable - passed)
        caught = {}
        props = [prop] if a.only_own else [prop] + [x for x in json.loads('[' + ','.join('"C%02d"' % n for n in range(1, 35)) + ']') if x != prop]
        for c in [] if a.tests_only else props:
            p = sh([here + '/check', c, '--no-evidence'], env=dict(os.environ, VERIF_REPO=cp, VERIF_SEED=a.seed), timeout=900)
            if p.returncode:
                v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
                caught[c] = (v[0] if v else 'exit %d ' % p.returncode + p.stdout[-300:])
        if a.tests_only:
            return i, r
        r['caught'] = sorted(caught)
        r['own'] = caught.get(prop, 'MISSED')
        odd = {c: v for c, v in caught.items() if not v.startswith('VIOLATION')}
        if odd:
            r['odd'] = odd
    finally:
        shutil.rmtree(W)
    return i, r


ids = a.ids or sorted(os.listdir(os.path.join(here, 'seeded')))
with cf.ThreadPoolExecutor(a.j) as ex:
    for i, r in ex.map(one, ids):
        res = json.load(open(resfile)) if os.path.exists(resfile) else {}
        res[i] = dict(res.get(i, {}), **r)
        json.dump(res, open(resfile, 'w'), indent=1, sort_keys=True)
        ok = r.get('demo_clean') == 0 and r.get('demo_bug') and r.get('build') == 0 and not r.get('tests_missing')
        print(i, 'valid' if ok else 'INVALID ' + json.dumps({k: v for k, v in r.items() if k not in ('caught', 'own')}), 'caught by', r.get('caught'), '' if r.get('own', '').startswith('VIOL') else 'OWN: ' + str(r.get('own')), r.get('odd', ''), flush=True)
