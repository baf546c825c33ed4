#!/usr/bin/env python3
"""Runner of the solver-based checks: builds the engine and the bitcode of /repo's current tree, runs the
harnesses symbolically, replays every counterexample against the real (ASan) build, writes the evidence."""
import sys, os, json, hashlib, subprocess, shutil, time, threading, re, glob
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO=os.environ.get('VF_REPO','/repo')
B=os.path.join(V,'build'); NCPU=max(2,min(8,os.cpu_count() or 4))
CJ=['file','cjit','elflinker','winlinker','main','cwalk','array','muntar','tinflate','tinfgzip','cjit-ar','assets']
EMB=['embed_libtcc1.a','embed_include']
TC=['libtcc','tccpp','tccgen','tccdbg','tccelf','tccasm','tccrun','x86_64-gen','x86_64-link','i386-asm']
CJF='-DVERSION="x" -DCURRENT_YEAR="2025" -DLIBC_GNU -D_GNU_SOURCE -DKILO_SUPPORTED -DCJIT_BUILD_LINUX -Isrc -Ilib/tinycc'.split()
TCF='-DONE_SOURCE=0 -DTCC_TARGET_X86_64 -DCONFIG_TRIPLET="x86_64-linux-gnu" -Ilib/tinycc -D_GNU_SOURCE'.split()
L1=['libtcc1','stdatomic','builtin','va_list','dsohandle']  # C members of libtcc1.a
L1S=['alloca','alloca-bt','atomic']
def sh(cmd,cwd=None,check=True,env=None,timeout=900):
    r=subprocess.run(cmd,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=env,timeout=timeout)
    if check and r.returncode:
        sys.stderr.write('command failed: %s\n%s\n'%(' '.join(cmd),r.stdout.decode('utf8','replace')[-4000:])); raise SystemExit(2)
    return r
def fhash(paths,extra=''):
    h=hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); 
        with open(p,'rb') as f: h.update(f.read())
    return h.hexdigest()[:16]
def par(fs,n=NCPU):
    with ThreadPoolExecutor(n) as ex:
        for f in [ex.submit(*x) if isinstance(x,tuple) else ex.submit(x) for x in fs]: f.result()
def once(d,make):
    """build directory d atomically"""
    if os.path.exists(os.path.join(d,'.ok')): return d
    os.makedirs(B,exist_ok=True); t=d+'.tmp%d'%os.getpid(); shutil.rmtree(t,ignore_errors=True); os.makedirs(t); make(t); open(os.path.join(t,'.ok'),'w').close()
    try: os.rename(t,d)
    except OSError:
        if not os.path.exists(os.path.join(d,'.ok')): shutil.rmtree(d,ignore_errors=True); os.rename(t,d)
        else: shutil.rmtree(t,ignore_errors=True)
    return d
# ---------------------------------------------------------------- engine
def engine():
    src=glob.glob(V+'/engine/*.[ch]pp'); d=os.path.join(B,'engine-'+fhash(src))
    def make(t):
        cf=sh(['llvm-config','--cxxflags']).stdout.decode().split()
        jobs=[(sh,['g++','-O2','-ftree-vectorize','-std=c++17','-c',V+'/engine/%s.cpp'%f,'-o',t+'/%s.o'%f]) for f in ('expr','solver','exec')]
        jobs.append((sh,['g++','-O1','-std=c++17']+cf+['-fexceptions','-w','-c',V+'/engine/load.cpp','-o',t+'/load.o']))
        par(jobs); ld=sh(['llvm-config','--libdir']).stdout.decode().strip()
        sh(['g++']+[t+'/%s.o'%f for f in ('expr','solver','exec','load')]+['-L'+ld,'-lLLVM-18','-lz3','-o',t+'/symx'])
    return os.path.join(once(d,make),'symx')
# ---------------------------------------------------------------- copy of the repository sources
def repo_files():
    fs=[]
    for top in ('src','lib/tinycc','build'):
        for r,ds,ns in os.walk(os.path.join(REPO,top)):
            rel=os.path.relpath(r,REPO)
            if rel.startswith('lib/tinycc/tests') or rel.startswith('lib/tinycc/examples') or '.git' in rel: ds[:]=[]; continue
            for n in ns:
                if n.endswith(('.o','.a','.exe','.mak','.texi')) or n in ('config.h','tccdefs_.h','assets.c','assets.h','tcc','cjit') or n.startswith('embed_') : continue
                fs.append(os.path.join(rel,n))
    return fs
CONFIG_H='''#define CONFIG_SYSROOT ""
#define CONFIG_TCCDIR "/usr/local/lib/tcc"
#define CONFIG_TCC_PREDEFS 1
#define GCC_MAJOR 13
#define GCC_MINOR 3
#define CC_NAME CC_gcc
#define TCC_VERSION "0.9.28rc"
'''
def srctree():
    fs=repo_files(); d=os.path.join(B,'src-'+fhash([os.path.join(REPO,f) for f in fs],open(os.path.abspath(__file__)).read()[:0]+'v6'))
    def make(t):
        for f in fs:
            o=os.path.join(t,f); os.makedirs(os.path.dirname(o),exist_ok=True); shutil.copy(os.path.join(REPO,f),o)
        open(t+'/lib/tinycc/config.h','w').write(CONFIG_H)
        sh(['gcc','-w','-DC2STR','lib/tinycc/conftest.c','-o','c2str.exe'],cwd=t); sh(['./c2str.exe','lib/tinycc/include/tccdefs.h','lib/tinycc/tccdefs_.h'],cwd=t)
        open(t+'/lib/tinycc/libtcc1.a','w').write('!<arch>\n')
        e=dict(os.environ,PATH=os.environ.get('PATH','')+':/usr/bin:/bin')
        sh(['bash','build/init-assets.sh'],cwd=t)
        sh(['bash','build/embed-asset-path.sh','lib/tinycc/libtcc1.a'],cwd=t); sh(['bash','build/embed-asset-path.sh','lib/tinycc/include'],cwd=t)
        ref=[('libtcc1.a',t+'/lib/tinycc/libtcc1.a')]+[('include/'+n,t+'/lib/tinycc/include/'+n) for n in sorted(os.listdir(t+'/lib/tinycc/include'))]
        with open(t+'/src/assets_ref.h','w') as f:
            for i,(n,pth) in enumerate(ref): f.write('static const unsigned char ref_%d[]={%s 0};\n'%(i,''.join('%d,'%c for c in open(pth,'rb').read())))
            f.write('static const struct { const char*name; const unsigned char*data; unsigned len; } ref_files[]={%s};\n#define N_REF %d\n'%(','.join('{"%s",ref_%d,%d}'%(n,i,os.path.getsize(pth)) for i,(n,pth) in enumerate(ref)),len(ref)))
        with open(t+'/src/rt_ref.h','w') as f:
            for n in L1+L1S:
                pth=t+'/lib/tinycc/lib/'+n+('.c' if n in L1 else '.S')
                if os.path.exists(pth): f.write('#define RT_%s\nstatic const char rt_%s[]={%s 0};\n'%((n.replace('-','_'),)*2+(''.join('%d,'%c for c in open(pth,'rb').read()),)))
        open(t+'/src/assets.c','a').write('\nreturn(true);\n}\n'); open(t+'/src/assets.h','a').write('\n#endif\n')
    return once(d,make)
OPT=['-passes=sroa,simplifycfg,instsimplify']
MODELF='-w -O1 -ffp-contract=off -fno-pic -fno-pie -fno-vectorize -fno-slp-vectorize -fno-strict-aliasing -fwrapv -g -fno-builtin'.split()
def models():
    fs=[V+'/lib/'+f for f in ('model_str.c','model_env.c','model_env.h','x86emu.c','sx.h')]; d=os.path.join(B,'models-'+fhash(fs,' '.join(MODELF)))
    def make(t): par([(sh,['clang']+MODELF+['-emit-llvm','-I'+V+'/lib','-c',V+'/lib/%s.c'%m,'-o',t+'/%s.bc'%m]) for m in ('model_str','model_env','x86emu')])
    return once(d,make)
# group tccm: the compiler with its pooling allocator switched off, so that every token and symbol is an object whose bounds are known
def plain(src,f,t):
    x=open(src+'/lib/tinycc/%s.c'%f).read(); y=re.sub(r'(?m)^#\s*define\s+USE_TAL\s*$','',x)
    if x==y: return 'lib/tinycc/%s.c'%f
    open(t+'/%s.c'%f,'w').write(y); return t+'/%s.c'%f
def bitcode(src,group):
    d=os.path.join(B,os.path.basename(src).replace('src-','bc-')+'-'+group)
    def make(t):
        j=[]
        def one(c,out,flags): sh(['clang','-w','-O0','-Xclang','-disable-O0-optnone','-g','-emit-llvm','-fno-builtin','-ffp-contract=off']+flags+['-c',c,'-o',out+'.0'],cwd=src); sh(['opt']+OPT+[out+'.0','-o',out])
        if group=='cjit':
            for f in CJ+EMB: j.append((one,'src/%s.c'%f,t+'/c_%s.bc'%f,CJF+(['-Dmain=cjit_main'] if f=='main' else [])))
        elif group in ('tcc','tccm'):
            for f in TC: j.append((one,plain(src,f,t) if group=='tccm' else 'lib/tinycc/%s.c'%f,t+'/t_%s.bc'%f,TCF+['-Ilib/tinycc']))
        elif group=='libtcc1':
            for f in L1: 
                if os.path.exists(src+'/lib/tinycc/lib/%s.c'%f): j.append((one,'lib/tinycc/lib/%s.c'%f,t+'/l_%s.bc'%f,['-Ilib/tinycc','-Ilib/tinycc/include']))
        par(j)
    return once(d,make)
SAN='-ffp-contract=off -fsanitize=address -fno-omit-frame-pointer -g -O1 -w -fno-common'.split()
def natobj(src,group):
    d=os.path.join(B,os.path.basename(src).replace('src-','nat-')+'-'+group)
    def make(t):
        j=[]
        def one(c,out,flags): sh(['clang']+SAN+flags+['-c',c,'-o',out],cwd=src)
        if group=='cjit':
            for f in CJ+EMB: j.append((one,'src/%s.c'%f,t+'/c_%s.o'%f,CJF+(['-Dmain=cjit_main'] if f=='main' else [])))
        elif group in ('tcc','tccm'):
            for f in TC: j.append((one,plain(src,f,t) if group=='tccm' else 'lib/tinycc/%s.c'%f,t+'/t_%s.o'%f,TCF+['-Ilib/tinycc']))
        elif group=='libtcc1':
            for f in L1: 
                if os.path.exists(src+'/lib/tinycc/lib/%s.c'%f): j.append((one,'lib/tinycc/lib/%s.c'%f,t+'/l_%s.o'%f,['-Ilib/tinycc','-Ilib/tinycc/include','-fno-builtin']))
        par(j)
    return once(d,make)
class Job:
    """name; src: harness file; groups: repository parts linked; env: the in-memory environment is used;
    entry, defs, timeout: per tier; covers: labels that must be reached; only: link only these modules"""
    def __init__(s,name,src,groups=('cjit',),env=True,entry='harness',defs=(),timeout=60,covers=(),bounds='',only=None,x86=False,hflags=(),qlimit=None,tiers=('quick','thorough'),hasan=True,replay_t=20,known=None,cfile=None,omit=()):
        s.__dict__.update(locals()); del s.__dict__['s']
def hcompile(job,src,t,native,defs):
    fl=['-I'+V+'/lib','-I'+V+'/harness','-I'+src+'/src','-I'+src+'/lib/tinycc']+list(defs)+list(job.hflags)
    hf=V+'/harness/'+job.src
    if native: 
        sh(['clang']+SAN+['-fno-strict-aliasing','-fwrapv','-fno-builtin','-DSX_NATIVE=1','-DSX_ENTRY='+job.entry]+fl+['-c',hf,'-o',t+'/h.o'],cwd=src); return t+'/h.o'
    sh(['clang']+MODELF+['-emit-llvm','-Wno-everything']+fl+['-c',hf,'-o',t+'/h.bc'],cwd=src); return t+'/h.bc'
def pick(job,files):
    def nm(f): return os.path.basename(f).rsplit('.',1)[0]
    if job.only is not None: files=[f for f in files if nm(f) in job.only or nm(f)[2:] in job.only]
    return [f for f in files if nm(f) not in job.omit and nm(f)[2:] not in job.omit]
def build_native(job,src,t,defs):
    objs=[]
    for g in job.groups: objs+=pick(job,sorted(glob.glob(natobj(src,g)+'/*.o')))
    h=hcompile(job,src,t,True,defs); ren=[]
    loc=[]
    if job.env:
        sh(['clang']+SAN+['-fno-builtin','-I'+V+'/lib','-c',V+'/lib/model_env.c','-o',t+'/env.o'])
        syms=[l.split()[-1] for l in sh(['nm','--defined-only','-g',t+'/env.o']).stdout.decode().split('\n') if l]
        with open(t+'/ren','w') as f:
            for s in syms:
                if s.startswith('m_') and s not in ('m_cap','m_tty','m_envs','m_nenv','m_errno'): f.write('%s %s\n'%(s[2:],s))
        for o in objs+[h]:
            n=t+'/r_'+os.path.basename(o); sh(['objcopy','--redefine-syms='+t+'/ren',o,n]); loc.append(n)
        loc.append(t+'/env.o')
    else: loc=objs+[h]
    sh(['clang','-w','-g','-O1','-fno-builtin','-DSX_ENTRY='+job.entry,'-I'+V+'/lib','-c',V+'/lib/sx_native.c','-o',t+'/nat.o'])
    sh(['clang','-fsanitize=address','-rdynamic']+loc+[t+'/nat.o','-o',t+'/native','-ldl','-lm','-lpthread'])
    return t+'/native'
def replay(binf,inputs,t,tag,tmo):
    f='%s/in_%s'%(t,tag)
    with open(f,'w') as h:
        for n,w,v in inputs:
            if not n.startswith('#'): h.write('%d %d\n'%(w,v))
    env=dict(os.environ,SX_INPUTS=f,ASAN_OPTIONS='exitcode=99:detect_leaks=0:malloc_fill_byte=165:max_malloc_fill_size=1048576:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0:handle_abort=0',LC_ALL='C')
    wd=t+'/cwd_'+tag; os.makedirs(wd,exist_ok=True)
    try: r=subprocess.run(['setpriv','--reuid=65534','--regid=65534','--clear-groups',binf] if False else [binf],cwd=wd,env=env,stdin=subprocess.DEVNULL,stdout=subprocess.PIPE,stderr=subprocess.PIPE,timeout=tmo)
    except subprocess.TimeoutExpired as e: return 'hang','timeout after %ds'%tmo,(e.stderr or b'').decode('utf8','replace')
    er=r.stderr.decode('utf8','replace')
    if r.returncode==77: return 'assert',re.findall(r'SXFAIL (.*)',er)[-1],er
    if r.returncode==99:
        m=re.findall(r'ERROR: AddressSanitizer:? ([^\n]*)',er); s=re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+)',er)
        return 'memory',(m[0] if m else 'asan')+' in '+' < '.join(s[:4]),er
    if r.returncode<0: return 'signal','signal %d'%-r.returncode,er
    if r.returncode==0: return 'ok','',er
    return 'other','exit %d'%r.returncode,er
def known_entries(pid):
    out=[]
    p=V+'/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: '):
                m=re.match(r'known: property=(\S+) job=(\S+) match=/(.*?)/ :: (.*)',l.strip())
                if m and m.group(1)==pid: out.append(m.groups()[1:])
    return out
def run_job(job,pid,tier,eng,src,mods,procs,outd,res,seed):
    t0=time.time(); t=os.path.join(outd,job.name); os.makedirs(t,exist_ok=True)
    defs=['-DTIER_QUICK=%d'%(tier=='quick'),'-DTIER_THOROUGH=%d'%(tier!='quick')]+list(job.defs)
    tmo=job.timeout[0 if tier=='quick' else 1] if isinstance(job.timeout,(tuple,list)) else job.timeout*(1 if tier=='quick' else 4)
    natf=[None]; err=[None]
    def bn():
        try: natf[0]=build_native(job,src,t,defs)
        except BaseException as e: err[0]=e
    th=threading.Thread(target=bn); th.start()
    h=hcompile(job,src,t,False,defs)
    files=[h,mods+'/model_str.bc',mods+'/model_env.bc']+([mods+'/x86emu.bc'] if job.x86 else [])
    for g in job.groups: files+=pick(job,sorted(glob.glob(bitcode(src,g)+'/*.bc')))
    cmd=[eng]+files+['--entry='+job.entry,'--out='+t+'/r','--procs=%d'%procs,'--timeout=%d'%tmo,'--repo='+src+'/','--repo=lib/tinycc/','--repo=src/']
    if job.qlimit: cmd.append('--rlimit=%d'%job.qlimit)
    p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=tmo*1.5+120)
    th.join()
    r={'job':job.name,'harness':job.src,'defs':list(job.defs),'bounds':job.bounds,'violations':[],'unconfirmed':[],'known':[]}
    if p.returncode not in (0,1) or not os.path.exists(t+'/r.sum'):
        r['error']='engine exit %d: %s'%(p.returncode,p.stdout.decode('utf8','replace')[-600:]); res.append(r); return
    s=json.loads(open(t+'/r.sum').read()); r['engine']={k:v for k,v in s.items() if k not in('functions',)}; r['functions']=s['functions']
    if err[0]: r['error']='native build failed'; 
    fails=[json.loads(l) for l in open(t+'/r.fail')]; seen={}
    # replay counterexamples against the real build
    for i,f in enumerate(fails[:60]):
        if not natf[0]: break
        k=(f['kind'],f['msg'],f['where'].split(' < ')[0])
        if seen.get(k,0)>=1: continue
        kind,msg,er=replay(natf[0],f['inputs'],t,'f%d'%i,job.replay_t)
        conf = kind in('assert','memory','signal') or (kind=='hang' and f['kind']=='hang')
        rec={'kind':f['kind'],'msg':f['msg'],'where':f['where'],'native':kind+': '+msg,'inputs':f['inputs'][:200]}
        if conf:
            seen[k]=seen.get(k,0)+1; path='%s/replay_%s_%d.json'%(outd,job.name,len(r['violations'])); rec['replay']=path; rec['cmd']='SX_INPUTS=%s/in_f%d %s'%(t,i,natf[0])
            json.dump(rec,open(path,'w'),indent=1); open(path+'.log','w').write(er)
            hit=[k2 for k2 in known_entries(pid) if k2[0]==job.name and re.search(k2[1],f['kind']+': '+f['msg'])]
            (r['known'] if hit else r['violations']).append(dict(rec,finding=hit[0][2] if hit else None))
        else: r['unconfirmed'].append(rec)
    # validate the encoding: models of explored paths, run natively, must end well and reach the same cover point
    r['validated']=0; r['mismatch']=[]
    if natf[0]:
        ws=[json.loads(l) for l in open(t+'/r.wit')][:30]
        def val(iw):
            i,w=iw; kind,msg,er=replay(natf[0],w['inputs'],t,'w%d'%i,job.replay_t)
            ok= kind=='ok' and (w['cover'] is None or ('SXCOVER '+w['cover']) in er)
            if not ok and w['cover'] and ('SXCOVER '+w['cover']) in er: ok=True
            return ok,w['cover'],kind,msg,[l for l in er.split('\n') if l.startswith('SX')][-3:]
        with ThreadPoolExecutor(4) as ex:
            for ok,c,kind,msg,tail in ex.map(val,enumerate(ws)):
                if ok: r['validated']+=1
                else: r['mismatch'].append({'cover':c,'native':kind+': '+msg,'tail':tail})
        r['samples']=[{'cover':w['cover'],'inputs':[x for x in w['inputs'][:24]]} for w in ws[:2]]
    r['missing_covers']=[c for c in job.covers if c not in s['cover']]
    r['wall_s']=round(time.time()-t0,1); res.append(r)
def check(pid,tier,only=None,keep=False,par_jobs=None):
    sys.path.insert(0,V+'/tools'); import checks
    C=checks.CHECKS[pid]; t0=time.time(); seed=int(os.environ.get('VERIF_SEED','1') or 1)
    eng=[None]; src=srctree(); mods=[None]; jobs=[j for j in C['jobs'] if tier in j.tiers and (not only or j.name in only)]
    groups=sorted({g for j in jobs for g in j.groups})
    par([(lambda: eng.__setitem__(0,engine())),(lambda: mods.__setitem__(0,models()))]+[(bitcode,src,g) for g in groups]+[(natobj,src,g) for g in groups],6)
    outd=os.path.join(B,'out-%s-%s'%(pid,tier)); shutil.rmtree(outd,ignore_errors=True); os.makedirs(outd)
    res=[]; npar=par_jobs or C.get('par',2); npar=min(npar,max(1,len(jobs))); procs=max(2,-(-NCPU//npar)) if npar>1 else NCPU
    par([(run_job,j,pid,tier,eng[0],src,mods[0],procs,outd,res,seed) for j in jobs],npar)
    order={j.name:i for i,j in enumerate(jobs)}; res.sort(key=lambda r:order[r['job']])
    tot=lambda k: sum(r.get('engine',{}).get(k,0) for r in res)
    viol=[v for r in res for v in r['violations']]; errors=[r['job']+': '+r['error'] for r in res if r.get('error')]
    inc={}
    for r in res:
        for k,v in r.get('engine',{}).get('incomplete_reasons',{}).items(): inc[r['job']+': '+k]=v
        if r.get('missing_covers'): inc[r['job']+': cover points not reached: '+', '.join(r['missing_covers'])]=1
    ev={'property':pid,'tier':tier,'seed':seed,'level':'model_checking','coverage':{
        'states':tot('paths'),'transitions':tot('insts'),'traces_validated_against_impl':sum(r.get('validated',0) for r in res),
        'samples':[dict(x,job=r['job']) for r in res for x in r.get('samples',[])][:8],
        'explanation':'bounded symbolic execution of LLVM bitcode compiled from the current tree; states = symbolic paths explored, transitions = instructions executed symbolically, each assertion decided by the solver (z3) for every value of the unknowns on its path',
        'functions_encoded':sorted({f for r in res for f in r.get('functions',[])}),
        'assertions_checked':tot('asserts'),'assertion_queries':tot('assert_queries'),'queries':tot('queries'),'unsat':tot('unsat'),'sat':tot('sat'),'unknown':tot('unknown'),'byte_domain_decisions':tot('small_domain'),'solver_s':round(tot('solver_s'),2),
        'cover_points':{r['job']+':'+k:v for r in res for k,v in r.get('engine',{}).get('cover',{}).items()},
        'bounds':[{'job':r['job'],'bounds':r['bounds'],'paths':r.get('engine',{}).get('paths'),'wall_s':r.get('engine',{}).get('wall_s')} for r in res],
        'incomplete':inc,'exhaustive':not inc and not errors,
        'unconfirmed_counterexamples':[{'job':r['job'],'kind':u['kind'],'msg':u['msg'],'where':u['where'],'native':u['native']} for r in res for u in r['unconfirmed']][:20],
        'validation_mismatches':[dict(m,job=r['job']) for r in res for m in r.get('mismatch',[])][:20],
        'known_findings':sorted({v['finding'] for r in res for v in r['known']})},
      'assumptions':C.get('assumptions',[]),'wall_s':round(time.time()-t0,1),'violations':len(viol)}
    os.makedirs(V+'/evidence',exist_ok=True); json.dump(ev,open(V+'/evidence/%s.json'%pid,'w'),indent=1)
    for r in res:
        e=r.get('engine',{}); print('%s %-14s paths %-6s asserts %-7s queries %-6s solver %.1fs wall %ss incomplete %s validated %s%s'%(pid,r['job'],e.get('paths'),e.get('asserts'),e.get('queries'),e.get('solver_s',0),r.get('wall_s'),e.get('incomplete'),r.get('validated'),' MISMATCH %d'%len(r['mismatch']) if r.get('mismatch') else ''))
        for m in r.get('mismatch',[])[:3]: print('  note: native run of an explored path differs:',m)
        for u in r['unconfirmed'][:4]: print('  note: counterexample not reproduced natively (not reported): %s: %s at %s [%s]'%(u['kind'],u['msg'],u['where'],u['native'][:200]))
    for k in inc: print('  note: outside what was explored:',k,inc[k])
    for k in sorted({v['finding'] for r in res for v in r['known']}): print('KNOWN-FINDING: property=%s %s'%(pid,k))
    for e in errors: print('ERROR',e)
    if viol:
        v=viol[0]; print('%s at %s (native: %s)'%(v['msg'],v['where'],v['native'])); 
        for v in viol[:6]: print('VIOLATION property=%s replay=%s'%(pid,os.path.relpath(v['replay'],V)))
        return 1
    if errors: return 2
    return 0
def setup():
    src=srctree(); par([(engine,),(models,)]+[(bitcode,src,g) for g in ('cjit','tcc')]+[(natobj,src,g) for g in ('cjit','tcc')],6); return 0
if __name__=='__main__':
    a=sys.argv[1:]
    if a[:1]==['setup']: sys.exit(setup())
    if a[:1]==['check']:
        tier=os.environ.get('VERIF_TIER','quick'); only=[x[6:] for x in a if x.startswith('--job=')] or None
        if '--tier=thorough' in a: tier='thorough'
        if '--tier=quick' in a: tier='quick'
        sys.exit(check(a[1],tier,only))
    print(__doc__); sys.exit(2)
