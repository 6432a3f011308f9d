import os, subprocess, json, shutil, sys, tempfile
LIB=open('/tmp/w/lib.py').read()
def mk(id, prop, edits, demo, needs, breaks, lib=True):
    D='/verif/seeded/%s'%id; os.makedirs(D,exist_ok=True)
    W=tempfile.mkdtemp(prefix='mk',dir='/tmp'); 
    subprocess.check_call(['cp','-a','/repo',W+'/repo'])
    for f,old,new in edits:
        p=W+'/repo/src/'+f; s=open(p).read()
        n=s.count(old); assert n==1,(f,old,n)
        open(p,'w').write(s.replace(old,new))
    d=subprocess.check_output(['git','diff'],cwd=W+'/repo',text=True)
    open(D+'/patch.diff','w').write(d)
    shutil.rmtree(W)
    open(D+'/demo.sh','w').write('''#!/bin/bash
# run with cwd = the repository; exits 0 when the property holds for the demonstrated input
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/src:$D" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$D/demo.py"
''')
    os.chmod(D+'/demo.sh',0o755)
    open(D+'/demo.py','w').write(demo.lstrip('\n'))
    if lib: open(D+'/lib.py','w').write(LIB)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(D+'/meta.json','w'),indent=1)
