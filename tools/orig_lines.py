"""Lists planted bugs whose patch changes no line of the original repository (only lines added by fix commits)."""
import os, re, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()
base = sys.argv[1] if len(sys.argv) > 1 else '1da3731'
bl = {}
for d in sorted(os.listdir(here + '/seeded')):
    f = n = None
    old = new = 0
    for l in open(f'{here}/seeded/{d}/patch.diff'):
        if l.startswith('--- a/'):
            f = l[6:].strip()
            if f not in bl:
                bl[f] = [x.split()[0] for x in subprocess.run(['git', '-C', '/repo', 'blame', '-s', 'HEAD', '--', f], capture_output=True, text=True).stdout.splitlines()]
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif n is not None and l[:1] == '-' and not l.startswith('---'):
            if bl[f][n - 1].lstrip('^')[:7] == base[:7]:
                old += 1
            else:
                new += 1
            n += 1
        elif n is not None and l[:1] == ' ':
            n += 1
    if not old:
        print(d, 'original lines changed:', old, 'fix lines changed:', new)
