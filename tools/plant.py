#!/usr/bin/env python3
# plant.py DIR : DIR holds edits.py (EDITS=[(file,old,new)], META={}), demo.sh and its files. Writes patch.diff and meta.json and
# confirms in a scratch copy of /repo that the change builds, passes the stable tests and fails the demonstration.
import sys,os,json,subprocess,shutil,runpy,tempfile
d=os.path.abspath(sys.argv[1]); notest='--notest' in sys.argv
spec=runpy.run_path(sys.argv[2] if len(sys.argv)>2 and not sys.argv[2].startswith('-') else d+'/edits.py')
s=tempfile.mkdtemp(prefix='plant.',dir='/tmp'); r=s+'/repo'
def run(*c,**k): return subprocess.run(c,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
try:
    run('cp','-a','/repo',r)
    os.mkdir(s+'/tmp')
    def ns(cmd): return subprocess.run(['unshare','-m','bash','-c','mkdir -p /mnt/v && mount --bind %s /mnt/v && mount --bind /mnt/v/repo /repo && mount --bind /mnt/v/tmp /tmp && cd /repo && '%s+cmd],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace')
    demo=s+'/demo'; shutil.copytree(d,demo)
    for f in ('edits.py','patch.diff','meta.json'):
        if os.path.exists(demo+'/'+f): os.remove(demo+'/'+f)
    def demorun():
        p=ns('timeout 300 bash /mnt/v/demo/demo.sh'); return p.returncode,p.stdout[-600:]
    b=ns('bash /opt/vp/build.sh')
    if b.returncode: print('base build failed',b.stdout[-800:]); sys.exit(1)
    rc,o=demorun(); print('demo base rc',rc)
    if rc: print(o); sys.exit(1)
    run('git','-C',r,'checkout','--','.')
    for f,a,c in spec['EDITS']:
        t=open(r+'/'+f,encoding='latin1').read()
        if t.count(a)!=1: print('edit matches',t.count(a),f,a); sys.exit(1)
        open(r+'/'+f,'w',encoding='latin1').write(t.replace(a,c))
    p=subprocess.run(['git','-C',r,'diff'],stdout=subprocess.PIPE).stdout
    for f,a,c in spec['EDITS']: # original lines only
        bl=run('git','-C','/repo','blame','-s','HEAD','--',f).stdout.splitlines(); src=open('/repo/'+f,encoding='latin1').read(); i=src[:src.index(a)].count('\n'); n=a.count('\n')+1
        mine=[l for l in bl[i:i+n] if not l.startswith('^')]
        if mine: print('WARNING lines of a fix commit:',mine)
    b=ns('bash /opt/vp/build.sh')
    if b.returncode: print('patched build failed',b.stdout[-1500:]); sys.exit(1)
    rc,o=demorun(); print('demo patched rc',rc,o[-300:])
    if rc==0: sys.exit(1)
    if not notest:
        ns('bash /opt/vp/test.sh /mnt/v/out.json'); j=json.load(open(s+'/out.json')); base=json.load(open('/opt/vp/BASELINE.json'))
        ids=base['stable']
        ids=[x if isinstance(x,str) else x.get('id') for x in ids]
        miss=[x for x in ids if x not in j['passed']]; print('tests failing:',miss)
        if miss: sys.exit(1)
    open(d+'/patch.diff','wb').write(p); json.dump(spec['META'],open(d+'/meta.json','w'),indent=1); print('OK',d)
    if os.path.exists(d+'/edits.py'): os.remove(d+'/edits.py')
finally: shutil.rmtree(s,ignore_errors=True)
