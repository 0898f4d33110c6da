"""spec(id, prop, file, old, new, demo, needs, breaks[, count])"""
import os, subprocess, json, sys
V=os.environ.get('BUGV','/verif')+'/seeded'
SH='''#!/bin/bash
# run with cwd = the repository
R=$PWD; D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT; cd "$W" || exit 2
PYTHONPATH=$R PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python -W ignore "$D/demo.py"
'''
def spec(id, prop, file, old, new, demo, needs, breaks, nth=0):
    if len(sys.argv)>1 and id not in sys.argv[1:]: return
    d=os.path.join(V,id); os.makedirs(d,exist_ok=True)
    edits = file if isinstance(file, list) else [(file, old, new, nth)]
    wt='/tmp/mkwt'; subprocess.run(['rm','-rf',wt]); subprocess.run(['cp','-a','/repo',wt],check=True)
    for f,o,n,k in edits:
        p=os.path.join(wt,f); s=open(p).read()
        parts=s.split(o); assert len(parts)>k+1,(id,f,o,len(parts))
        s=o.join(parts[:k+1])+n+o.join(parts[k+1:]); open(p,'w').write(s)
    diff=subprocess.run(['git','-C',wt,'diff'],stdout=subprocess.PIPE).stdout
    open(d+'/patch.diff','wb').write(diff)
    open(d+'/demo.sh','w').write(SH); open(d+'/demo.py','w').write(demo)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    subprocess.run(['rm','-rf',wt]); print('made',id)
SIM='''import veriloggen as vg, subprocess, sys
from veriloggen import simulation
def sim(top, name='t'):
    return simulation.Simulator(top).run(outputfile=name)
'''
