"""which planted bugs remove or change a line of the original repository (not of our commits)"""
import os, re, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mine = set(subprocess.run(['git', '-C', '/repo', 'log', '--format=%h', '--abbrev=8', '90c571c..HEAD'], capture_output=True, text=True).stdout.split())
blame = {}
for s in sorted(os.listdir(HERE + '/seeded')):
    f, n, orig, own, ins = None, 0, 0, 0, 0
    for l in open(HERE + '/seeded/%s/patch.diff' % s):
        if l.startswith('--- a/'):
            f = l[6:].strip()
            if f not in blame:
                blame[f] = [x.split()[0].lstrip('^')[:7] for x in subprocess.run(['git', '-C', '/repo', 'blame', '-s', '--abbrev=8', f], capture_output=True, text=True).stdout.splitlines()]
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('+++'):
            pass
        elif l.startswith('-'):
            if l[1:].strip() and not l[1:].strip().startswith('#'):
                if any(blame[f][n - 1] == m[:7] for m in mine): own += 1
                else: orig += 1
            n += 1
        elif l.startswith('+'):
            ins += 1
        elif l.startswith(' '):
            n += 1
    if not orig: print(s, 'changes original lines:', orig, 'own:', own, 'inserted:', ins)
