#!/usr/bin/env python3
"""mk.py ID PROPERTY  (reads /tmp/w/seed/ID.py defining F (file), edit(s), DEMO (c++), NEEDS, BREAKS, optional ENV=True)"""
import sys,os,subprocess,json,shutil,glob
i=sys.argv[1]; ns={}
exec(open('/tmp/w/seed/%s.py'%i).read(),ns)
prop=ns['P']; S='/tmp/w/seed/scratch'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
sh('/bin/rm -rf %s; git -C /repo worktree prune'%S); os.makedirs(S)
r=S+'/repo'; sh('cp -a /repo '+r)
files=ns['F'] if isinstance(ns['F'],list) else [ns['F']]
for f in files:
    p=r+'/'+f; s=open(p).read(); n=ns['edit'](s) if len(files)==1 else ns['edit'](s,f)
    assert n!=s,'unchanged '+f
    open(p,'w').write(n)
d=sh('git diff',cwd=r).stdout
out='/verif/seeded/'+i; os.makedirs(out,exist_ok=True)
open(out+'/patch.diff','w').write(d)
cpp=ns['DEMO'].strip()+'\n'; open(out+'/demo.cpp','w').write(cpp)
env=' esl/computation/environment.cpp' if ns.get('ENV') else ''
open(out+'/demo.sh','w').write('''#!/bin/bash
# builds and runs demo.cpp against the library in the current directory
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap '/bin/rm -rf "$tmp"' EXIT
g++ -O1 -std=c++17 -include cstdint -DESL_RELEASE=1 -DWITH_PYTHON%s -I. "$here/demo.cpp"%s -o "$tmp/demo" \\
    $(python3-config --includes) -L_build -lesl -lboost_serialization -lboost_python312 -lpython3.12 -lpthread%s -Wl,-rpath,"$PWD/_build" -Wl,--allow-shlib-undefined -w || exit 3
timeout 120 "$tmp/demo"
'''%(ns.get('DEFS',''),env,ns.get('LIBS','')))
json.dump({'property':prop,'needs':ns['NEEDS'],'what_it_breaks':ns['BREAKS']},open(out+'/meta.json','w'),indent=1)
# clean demo in /repo
c=sh('bash %s/demo.sh'%out,cwd='/repo'); print('clean demo rc',c.returncode,(c.stdout+c.stderr)[-600:] if c.returncode else '')
# mutated: bind path /repo is used by build.sh, so build by hand in the copy
b=sh("sed 's#/repo#%s#g' /opt/vp/build.sh > %s/b.sh; /bin/rm -rf %s/_build; bash %s/b.sh"%(r,S,r,S))
print('build rc',b.returncode,(b.stdout+b.stderr)[-800:] if b.returncode else '')
if b.returncode==0:
    t=sh("python3 /opt/vp/run_boost_tests.py %s/_build > %s/res.txt; python3 /opt/vp/results.py %s/o.json lines:%s/res.txt"%(r,S,S,S))
    o=json.load(open(S+'/o.json')); st=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    print('missing tests',st-set(o['passed']))
    m=sh('bash %s/demo.sh'%out,cwd=r); print('mutant demo rc',m.returncode,(m.stdout+m.stderr)[-300:])
    e=dict(os.environ,VERIF_CACHE='/tmp/w/cache')
    k=subprocess.run(['python3','/verif/check.py',prop,'--repo',r],capture_output=True,text=True,env=e); print('check rc',k.returncode,k.stdout[-500:])
sh('/bin/rm -rf '+S)
