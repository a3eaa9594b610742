#!/usr/bin/env python3
"""mkseed.py ID PROP PKG FILE 'old' 'new' 'needs' 'breaks' < demo_test.go
Creates /verif/seeded/ID from one or more replacements (FILE/old/new separated by NUL-free triples in a json file)."""
import json,sys,os,subprocess,shutil
spec=json.load(open(sys.argv[1]))
d='/verif/seeded/'+spec['id']; os.makedirs(d,exist_ok=True)
w='/tmp/w/'+spec['id']
if os.path.exists(w): shutil.rmtree(w)
subprocess.check_call(['cp','-a','/repo',w])
for f,old,new in spec['edits']:
    p=w+'/'+f; s=open(p).read()
    assert s.count(old)>=1,(f,old)
    assert s.count(old)==1 or spec.get('multi'),('ambiguous',f,old,s.count(old))
    open(p,'w').write(s.replace(old,new))
open(d+'/patch.diff','w').write(subprocess.check_output(['git','-C',w,'diff']).decode())
open(d+'/demo_test.go','w').write(spec['demo'])
pkg=spec['pkg']
open(d+'/demo.sh','w').write('''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
exec go test -vet=off -count=1 -timeout 120s -overlay <(printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d") -run '^TestSeedDemo$' ./%s
'''%(pkg,pkg)); os.chmod(d+'/demo.sh',0o755)
json.dump({"property":spec['property'],"needs":spec['needs'],"what_it_breaks":spec['breaks']},open(d+'/meta.json','w'),indent=1)
env=dict(os.environ)
def run(cwd,cmd): 
    r=subprocess.run(cmd,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT); return r.returncode,r.stdout.decode()
sh='. /opt/vp/env.sh; go build ./... '
print('build',run(w,['bash','-c',sh])[0])
a=run('/repo',['bash',d+'/demo.sh']); b=run(w,['bash',d+'/demo.sh'])
print('clean',a[0],'patched',b[0]); 
if a[0]: print(a[1][-1500:])
print(b[1][-500:])
if spec.get('check',True) and os.path.exists('/tmp/chk'):
    os.makedirs('/tmp/v',exist_ok=True); shutil.copy('/verif/known_findings.txt','/tmp/v/')
    r=run(w,['bash','-c','. /opt/vp/env.sh; timeout 600 /tmp/chk -repo %s -property %s -verif /tmp/v | cut -c1-250 | tail -8'%(w,spec['property'])])
    print(r[1])
shutil.rmtree(w)
