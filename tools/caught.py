#!/usr/bin/env python3
# caught.py [id...]: for each planted change run its property's quick check on a scratch copy of /repo with the change applied
import sys,os,json,subprocess,shutil,tempfile,time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S=V+'/seeded'; ids=sys.argv[1:] or sorted(os.listdir(S))
for i in ids:
    d=i if os.path.isdir(i) else S+'/'+i; m=json.load(open(d+'/meta.json')); c=tempfile.mkdtemp(prefix='caught.',dir='/tmp'); t=time.time()
    try:
        subprocess.run('cp -a /repo/. %s/ && git -C %s checkout -q -- . && git -C %s apply %s'%(c,c,c,os.path.abspath(d)+'/patch.diff'),shell=True,check=True)
        r=subprocess.run([sys.executable,V+'/tools/vf.py','check',m['property']],env=dict(os.environ,VF_REPO=c),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,cwd=V)
        v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print(i,m['property'],'CAUGHT' if r.returncode==1 and v else 'MISSED rc=%d'%r.returncode,'%.0fs'%(time.time()-t),flush=True)
        if not v and r.returncode: print(r.stdout[-600:])
    finally: shutil.rmtree(c)
