#!/usr/bin/env python3
"""Automatic mutants: a seeded sample of single-site changes that compile and pass the existing tests; which checks notice them?
usage: automut.py SEED COUNT [file substring]; VERIF_DIR: copy of /verif to use"""
import subprocess,sys,os,random,json,time
seed,count=int(sys.argv[1]),int(sys.argv[2]); only=sys.argv[3] if len(sys.argv)>3 else ''
V=os.environ.get('VERIF_DIR','/verif')
here=os.path.dirname(os.path.abspath(__file__))
ORDER={'pol/pol.go':'C02 C07 C03 C06 C09 C01 C04 C11 C05 C08 C13 C10 C22','verkle/tree.go':'C02 C03 C12 C11 C09 C10 C13 C18','sparse/tree.go':'C01 C18 C12 C09 C11',
 'pp/pointproofs.go':'C17 C02 C06 C05 C13','bp/range.go':'C16 C02 C13 C06 C05 C08 C07','bp/innerprod.go':'C16 C14 C15 C02 C13 C06','bp/ir.go':'C16 C02 C06',
 'sum/sa.go':'C14 C02 C13 C06 C05','poe/poe.go':'C15 C02 C13 C06 C05','common/math.go':'C17 C16 C14 C02 C15 C13 C01'}
S='/tmp/automut.%d'%os.getpid(); os.makedirs(S)
env0=dict(os.environ,GOFLAGS='-mod=mod')
subprocess.run(['go','build','-o',S+'/automut','.'],cwd=here+'/automut',check=True)
sites=subprocess.run([S+'/automut']+sorted(ORDER),cwd='/repo',capture_output=True,text=True,check=True).stdout.splitlines()
sites=[s for s in sites if only in s.split('\t')[0]]
rng=random.Random(seed); rng.shuffle(sites)
d=S+'/repo'; subprocess.run(['cp','-a','/repo',d],check=True)
tried=passed=0
for s in sites:
    if passed>=count: break
    f,a,b,kind,line,repl=s.split('\t'); repl=json.loads(repl)
    src=open('/repo/'+f,'rb').read()
    new=src[:int(a)]+repl.encode()+src[int(b):]
    open(d+'/'+f,'wb').write(new)
    name='%s:%s %s %r -> %r'%(f,line,kind,src[int(a):int(b)].decode()[:60],repl[:60])
    try:
        r=subprocess.run(['go','build','./...'],cwd=d,capture_output=True,text=True)
        if r.returncode: continue
        tried+=1
        try: r=subprocess.run(['go','test','-vet=off','-timeout','120s','./...'],cwd=d,capture_output=True,text=True,timeout=200)
        except subprocess.TimeoutExpired: continue
        if r.returncode: continue
        passed+=1
        t=time.time(); got='MISSED'; ran=[]
        env=dict(os.environ,VERIF_REPO=d,POLSIM_EVIDENCE=S+'/ev',VERIF_SEED='1')
        for q in ORDER[f].split():
            r=subprocess.run(['./check',q,'quick'],cwd=V,env=env,capture_output=True,text=True)
            if r.returncode==1:
                cls=[l.split('class ')[-1] for l in r.stdout.splitlines() if 'class ' in l]
                got='caught %s %s'%(q,cls[:1]); break
            if r.returncode!=0: got='BROKEN %s %s'%(q,(r.stdout+r.stderr)[-200:]); break
        print('%s | %s | %.0fs'%(got,name,time.time()-t),flush=True)
    finally:
        open(d+'/'+f,'wb').write(src)
print('compiled %d, passed the tests %d'%(tried,passed))
subprocess.run(['rm','-rf',S])
