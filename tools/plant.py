#!/usr/bin/env python3
"""Confirm a planted bug: usage plant.py ID [--notest]. Works in a scratch copy of /repo; prints one line."""
import json, os, shutil, subprocess, sys, tempfile
sid = sys.argv[1]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(V, 'seeded', sid)
wt = tempfile.mkdtemp(prefix='plant_', dir='/tmp')
try:
    repo = os.path.join(wt, 'repo')
    subprocess.run(['cp', '-a', '/repo', repo], check=True)
    subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'], check=True)
    demo = os.path.join(wt, 'demo')
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))

    def rundemo():
        return subprocess.run(['bash', os.path.join(demo, 'demo.sh')], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    a = rundemo()
    subprocess.run(['git', '-C', repo, 'apply', os.path.join(d, 'patch.diff')], check=True)
    b = rundemo()
    out = 'demo unchanged rc=%d patched rc=%d' % (a.returncode, b.returncode)
    if a.returncode:
        print(a.stdout.decode()[-1500:])
    else:
        print(b.stdout.decode()[-300:])
    if '--notest' not in sys.argv:
        txt = open('/opt/vp/test.sh').read().replace('/repo', repo)
        open(os.path.join(wt, 't.sh'), 'w').write(txt)
        o = os.path.join(wt, 'o.json')
        subprocess.run(['bash', os.path.join(wt, 't.sh'), o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        res = set(json.load(open(o))['passed'])
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        miss = sorted(stable - res)
        # ids may carry the path of the copy
        out += ' tests missing=%d %s' % (len(miss), miss[:4])
    print(sid, out)
finally:
    shutil.rmtree(wt)
