#!/usr/bin/env python3
# mkseed.py FILE.py : creates and validates planted bugs (each validated in a scratch copy of /repo).
# FILE.py calls seed(id, prop, pkg, [(file, old, new)], demo_go, needs, breaks)
import json,os,subprocess,sys,shutil,tempfile
def run(c,cwd,**k): return subprocess.run(c,cwd=cwd,shell=True,capture_output=True,text=True,**k)
DEMO='''#!/bin/bash
# exit 0 when the property holds on this input
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$d" > "$t/o.json"
go test -vet=off -overlay "$t/o.json" -run 'TestSeedDemo$' -count=1 ./%(pkg)s
'''
def seed(id,prop,pkg,edits,demo,needs,breaks):
    out=f'/verif/seeded/{id}'
    w=tempfile.mkdtemp(prefix='seed.')
    try:
        run(f'cp -a /repo {w}/r',cwd='/')
        r=w+'/r'
        os.makedirs(out,exist_ok=True)
        open(out+'/demo_test.go.txt','w').write(demo)
        open(out+'/demo.sh','w').write(DEMO%dict(pkg=pkg))
        a=run(f'bash {out}/demo.sh',cwd=r)
        if a.returncode!=0: print(id,'DEMO FAILS ON CLEAN',a.stdout[-1500:],a.stderr[-800:]); shutil.rmtree(out); return
        for f,o,n in edits:
            s=open(r+'/'+f).read()
            if s.count(o)!=1: print(id,'edit matches',s.count(o),f,o[:60]); shutil.rmtree(out); return
            open(r+'/'+f,'w').write(s.replace(o,n))
        open(out+'/patch.diff','w').write(run('git diff',cwd=r).stdout)
        b=run('. /opt/vp/env.sh; cd '+r+'; go build ./...',cwd=r)
        if b.returncode: print(id,'NO BUILD',b.stderr[-800:]); shutil.rmtree(out); return
        t=run('. /opt/vp/env.sh; cd '+r+'; go test -vet=off -count=1 ./... 2>&1 | grep -E "^(---|FAIL|panic)"',cwd=r)
        if t.stdout.strip(): print(id,'TESTS:',t.stdout[:300])
        a=run(f'bash {out}/demo.sh',cwd=r)
        if a.returncode==0: print(id,'DEMO PASSES WITH BUG'); shutil.rmtree(out); return
        json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(out+'/meta.json','w'),indent=1)
        print(id,'ok',str(a.stdout.strip().splitlines()[1:3])[:200])
    finally: shutil.rmtree(w)
exec(open(sys.argv[1]).read())
