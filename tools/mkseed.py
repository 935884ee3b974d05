"""Create seeded/<ID>/ from a description: mk(ID, prop, [(file, old, new)...], needs, breaks, demo_py).
The demo is a python body: cwd is a scratch directory that is removed afterwards, the repository is importable.
Replaced lines must come from the original repository (checked with git blame)."""
import json, os, shutil, subprocess, tempfile
BASE = '58b9031'
SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONINTMAXSTRDIGITS=0
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
timeout 280 /opt/venv/bin/python -W ignore "$D/demo.py" "$PWD" "$T"
r=$?
/bin/rm -rf -- "$T"
exit $r
'''
HEAD = '''import os, sys
REPO, SCRATCH = sys.argv[1:3]
sys.path.insert(0, REPO)
os.chdir(SCRATCH)

'''
def sh(*a, **k):
    return subprocess.run(a, check=True, stdout=subprocess.PIPE, universal_newlines=True, **k).stdout

def mk(id, prop, edits, needs, breaks, demo):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='mkseed')
    try:
        for f in {e[0] for e in edits}:
            src = open('/repo/' + f, newline='').read()
            new = src
            for g, o, n in edits:
                if g == f:
                    assert new.count(o) == 1, (id, f, new.count(o), o)
                    new = new.replace(o, n)
            for side, t in (('a', src), ('b', new)):
                p = os.path.join(w, side, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, 'w', newline='').write(t)
        r = subprocess.run(['diff', '-ru', 'a', 'b'], cwd=w, stdout=subprocess.PIPE, universal_newlines=True).stdout
        out = []
        for l in r.splitlines(True):
            if l.startswith('diff '):
                continue
            if l.startswith(('--- ', '+++ ')):
                l = l.split('\t')[0].rstrip('\n') + '\n'
            out.append(l)
        open(d + '/patch.diff', 'w', newline='').write(''.join(out))
    finally:
        shutil.rmtree(w)
    # removed lines: original?
    import re
    f = None; own = 0; orig = 0
    for l in out:
        if l.startswith('--- a/'):
            f = l[6:].strip()
            blame = sh('git', '-C', '/repo', 'blame', '-s', '-l', f, errors='replace').splitlines()
            old = set(sh('git', '-C', '/repo', 'log', '--format=%H', BASE).split())
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-'):
            h = blame[n - 1].split()[0].lstrip('^')
            if any(o.startswith(h) for o in old): orig += 1
            else: own += 1
            n += 1
        elif l.startswith(' '):
            n += 1
    if own or not orig:
        print(id, 'WARNING: own lines', own, 'original lines', orig)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.sh', 'w').write(SH)
    open(d + '/demo.py', 'w').write(HEAD + demo.strip('\n') + '\n')
    os.chmod(d + '/demo.sh', 0o755)
    print(id, 'made')
