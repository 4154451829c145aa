#!/usr/bin/env python3
"""Sensitivity suite: applies small changes to a scratch copy of /repo and runs checks against it.
usage: mutants.py [-t] [-r RUNS] [filter...]     -t: also run the test suite on each mutant
Each mutant: name | file | old | new | properties expected to notice"""
import subprocess,sys,os,shutil,time
from mutants_list import MUTANTS
args=sys.argv[1:]
tests='-t' in args
if tests: args.remove('-t')
runs=None
if '-r' in args:
    i=args.index('-r'); runs=args[i+1]; del args[i:i+2]
S='/tmp/mutants.%d'%os.getpid()
os.makedirs(S,exist_ok=True)
bad=0
for mut in MUTANTS:
    name,props=mut[0],mut[-1]
    edits=mut[1] if isinstance(mut[1],list) else [tuple(mut[1:4])]
    if args and not any(a in name or a in props.split() for a in args): continue
    d=S+'/repo'
    subprocess.run(['rm','-rf',d]); subprocess.run(['cp','-a','/repo',d],check=True)
    ok=True
    for f,old,new in edits:
        p=d+'/'+f; s=open(p).read()
        if s.count(old)<1: ok=False; print(name,'DOES NOT APPLY',repr(old)); break
        s=s.replace(old,new,1); open(p,'w').write(s)
    if not ok: bad+=1; continue
    r=subprocess.run(['go','vet','./...'],cwd=d,capture_output=True,text=True)
    if ': undefined' in r.stderr or 'declared and not used' in r.stderr or 'imported and not used' in r.stderr or 'cannot use' in r.stderr:
        print(name,'DOES NOT COMPILE',r.stderr[-400:],flush=True); bad+=1; continue
    line=name.ljust(34)
    if tests:
        r=subprocess.run(['go','test','./...'],cwd=d,capture_output=True,text=True)
        line+=' tests:'+('pass' if r.returncode==0 else 'FAIL')
    env=dict(os.environ,VERIF_REPO=d,POLSIM_EVIDENCE=S+'/ev')
    if runs: env['POLSIM_RUNS']=runs
    for q in props.replace('-','').split():
        t=time.time()
        r=subprocess.run(['./check',q,'quick'],cwd=os.environ.get('VERIF_DIR','/verif'),env=env,capture_output=True,text=True)
        cls=''
        for l in r.stdout.splitlines():
            if 'class ' in l: cls=l.split('class ')[-1]
        line+=' %s:%s(%s,%.0fs)'%(q,{0:'MISSED',1:'caught',2:'ERROR'}.get(r.returncode,r.returncode),cls,time.time()-t)
        if r.returncode!=1: bad+=1
        if r.returncode==2: line+=r.stderr[-300:]
    print(line,flush=True)
subprocess.run(['rm','-rf',S])
print('not caught:',bad)
