#!/usr/bin/env python3
"""developer tool: write /verif/seeded/<id> from an edit; edits are (file, old, new) applied to /repo's HEAD in a scratch dir"""
import os, subprocess, json, tempfile, shutil
DEMO='''#!/bin/bash
# runs the demonstration test inside %(pkg)s of the repository in the current directory
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
ov=$(mktemp)
trap 'rm -f "$ov"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$here/demo.go.txt\\"}}" >"$ov"
go test -vet=off -count=1 -timeout 280s -overlay "$ov" -run '^TestZZDemo$' ./%(pkg)s
'''
def seed(id, prop, pkg, edits, demo, needs, breaks):
    d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+f'/seeded/{id}'; os.makedirs(d,exist_ok=True)
    t=tempfile.mkdtemp()
    a,b=t+'/a',t+'/b'
    for f,old,new in edits:
        src=subprocess.run(['git','-C','/repo','show','HEAD:'+f],capture_output=True,text=True,check=True).stdout
        pa,pb=a+'/'+f,b+'/'+f
        os.makedirs(os.path.dirname(pa),exist_ok=True); os.makedirs(os.path.dirname(pb),exist_ok=True)
        if not os.path.exists(pb):
            open(pa,'w').write(src); open(pb,'w').write(src)
        s=open(pb).read()
        n=0
        if isinstance(old,tuple): old,n=old   # (text, which occurrence, counted from 1)
        assert s.count(old)>=n, (id,f,old)
        if n==0 and s.count(old)!=1: raise Exception((id,'ambiguous',s.count(old),old))
        p=-1
        for _ in range(n or 1): p=s.index(old,p+1)
        s=s[:p]+new+s[p+len(old):]
        open(pb,'w').write(s)
    out=subprocess.run(['diff','-ruN','a','b'],cwd=t,capture_output=True,text=True).stdout
    import re
    out=re.sub(r'^diff -ruN.*\n','',out,flags=re.M); out=re.sub(r'^(--- a/\S+|\+\+\+ b/\S+)\t.*$',r'\1',out,flags=re.M)
    open(d+'/patch.diff','w').write(out)
    open(d+'/demo.sh','w').write(DEMO%{'pkg':pkg}); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.go.txt','w').write(demo)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(t)
