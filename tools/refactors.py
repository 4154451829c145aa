#!/usr/bin/env python3
"""Applies behaviour-preserving edits to a scratch copy of /repo; every check has to stay quiet.
usage: refactors.py [filter...]"""
import subprocess,sys,os,time
from refactors_list import REFACTORS
args=sys.argv[1:]
S='/tmp/refactors.%d'%os.getpid()
os.makedirs(S)
bad=0
for name,edits,props in REFACTORS:
    if args and not any(a in name or a in props.split() for a in args): continue
    d=S+'/repo'
    subprocess.run(['rm','-rf',d]); subprocess.run(['cp','-a','/repo',d],check=True)
    ok=True
    for f,old,new in edits:
        p=d+'/'+f; s=open(p).read()
        if old not in s: ok=False; print(name,'DOES NOT APPLY',repr(old)); break
        open(p,'w').write(s.replace(old,new,1))
    if not ok: bad+=1; continue
    r=subprocess.run(['go','test','./...'],cwd=d,capture_output=True,text=True)
    line=name.ljust(20)+' tests:'+('pass' if r.returncode==0 else 'FAIL '+(r.stdout+r.stderr)[-800:])
    env=dict(os.environ,VERIF_REPO=d,POLSIM_EVIDENCE=S+'/ev')
    for q in props.split():
        t=time.time()
        r=subprocess.run(['./check',q,'quick'],cwd=os.environ.get('VERIF_DIR','/verif'),env=env,capture_output=True,text=True)
        line+=' %s:%s(%.0fs)'%(q,'quiet' if r.returncode==0 else 'ALARM %d'%r.returncode,time.time()-t)
        if r.returncode: bad+=1; line+='\n'+r.stdout[-700:]+r.stderr[-700:]+'\n'
    print(line,flush=True)
subprocess.run(['rm','-rf',S])
print('not quiet:',bad)
