#!/usr/bin/env python3
# tools/mkbug.py [ids...]: writes seeded/<id> from tools/bugs.py and validates the
# demonstrations (not the repository tests: vcheck runs them) in a scratch copy.
import sys, os, subprocess, json, shutil, tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/tools')
from bugs import BUGS
DEMO='''#!/bin/bash
# usage: demo.sh, in the root of the repository
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
libs=$(find _build -name libjburkardt_archive.a -o -name libtriangle_archive.a)
g++ -std=c++20 -O0 -w %s -I libdiskpp/include -I libdiskpp/contrib/triangle -I libdiskpp/contrib/jburkardt/include -isystem /usr/include/eigen3 "$here/demo.cpp" -o "$d/demo" $libs %s -Wl,--unresolved-symbols=ignore-all > "$d/log" 2>&1 || { tail -5 "$d/log"; exit 3; }
(cd "$d" && timeout 200 ./demo)
'''
def sh(c,**k): return subprocess.run(c,shell=True,text=True,capture_output=True,**k)
ids=sys.argv[1:] or [b for b in BUGS if not os.path.exists(V+'/seeded/'+b+'/patch.diff')]
wt=tempfile.mkdtemp(prefix='bug-',dir='/tmp')
sh(f'cp -a /repo {wt}/repo'); R=wt+'/repo'
for i in ids:
    b=BUGS[i]; d=f'{V}/seeded/{i}'; os.makedirs(d,exist_ok=True)
    sh('git checkout -- .',cwd=R)
    ok=True
    for f,old,new in b['edits']:
        p=f if f.startswith('libdiskpp') else 'libdiskpp/include/diskpp/'+f
        s=open(f'{R}/{p}').read(); n=b.get('nth',0)
        if old not in s: print(i,'text not found in',p); ok=False; break
        k=-1
        for _ in range(n+1): k=s.find(old,k+1)
        assert k>=0,(i,'nth')
        if s.count(old)>1 and 'nth' not in b: print(i,'ambiguous',s.count(old)); ok=False; break
        open(f'{R}/{p}','w').write(s[:k]+new+s[k+len(old):])
    if not ok: continue
    open(d+'/patch.diff','w').write(sh('git diff',cwd=R).stdout)
    open(d+'/demo.cpp','w').write(b['demo'])
    open(d+'/demo.sh','w').write(DEMO%(b.get('flags',''),b.get('libs','')))
    json.dump(dict(property=b['property'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
    bad=sh('bash '+d+'/demo.sh',cwd=R); sh('git checkout -- .',cwd=R); good=sh('bash '+d+'/demo.sh',cwd=R)
    verdict='OK' if good.returncode==0 and bad.returncode not in (0,3) else 'INVALID'
    print(i,b['property'],verdict,'clean',good.returncode,good.stdout.strip()[-200:],'| patched',bad.returncode,bad.stdout.strip()[-200:],flush=True)
shutil.rmtree(wt)
