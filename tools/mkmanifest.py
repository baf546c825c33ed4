#!/usr/bin/env python3
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/tools')
import checks
NA=getattr(checks,'NOT_APPLICABLE',{})
ps=[json.loads(l) for l in open(V+'/properties.jsonl')]
m={'version':1,'setup_cmd':'python3 tools/vf.py setup','checks':[],'not_applicable':[],
 'notes':'Each check builds its engine and the bitcode of /repo/src and /repo/lib/tinycc from the current tree into /verif/build (git-ignored). No hooks are compiled into /repo.'}
for p in ps:
    i=p['id']
    if i in checks.CHECKS:
        c=checks.CHECKS[i]
        m['checks'].append({'property':i,'quick_cmd':'python3 tools/vf.py check %s --tier=quick'%i,'thorough_cmd':'python3 tools/vf.py check %s --tier=thorough'%i,'evidence_file':'evidence/%s.json'%i,
          'technique':c.get('technique','symbolic execution of the compiled source (LLVM bitcode), assertions decided by z3; counterexamples replayed natively'),'level':'model_checking','level_note':c['title']+'. Bounded: '+'; '.join('%s: %s'%(j.name,j.bounds) for j in c['jobs'])[:1500]+'. Trusts the engine, z3 and the environment models; every counterexample is replayed on the native ASan build before it is reported.'})
    else: m['not_applicable'].append({'property':i,'reason':NA.get(i,'no check built yet')})
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
