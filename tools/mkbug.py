#!/usr/bin/env python3
# mkbug.py ID: uses /tmp/o/sb/ID.py defining PROP, NEEDS, BREAKS, edits [(file, old, new)], DEMO (go test source)
import sys,os,subprocess,json,shutil
idn=sys.argv[1]
ns={}
exec(open(f'/tmp/o/sb/{idn}.py').read(),ns)
wt=f'/tmp/sbw_{idn}'
shutil.rmtree(wt,ignore_errors=True)
subprocess.check_call(['git','clone','-q','/repo',wt])
d=f'/verif/seeded/{idn}'
os.makedirs(d,exist_ok=True)
open(f'{d}/demo_test.go','w').write(ns['DEMO'])
pre='' if 'type lyingCompiler' in ns['DEMO'] or ns.get('NOPRE') else open('/tmp/o/prelude.go').read()
if pre: open(f'{d}/prelude_test.go','w').write(pre)
open(f'{d}/demo.sh','w').write('''#!/bin/bash
# runs demo_test.go as an in-package test of the repository in the current directory
D=$(cd "$(dirname "$0")" && pwd)
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
{
    printf '{"Replace": {"%s/zz_demo_test.go": "%s/demo_test.go"' "$PWD" "$D"
    [ -r "$D/prelude_test.go" ] && printf ', "%s/zz_prelude_test.go": "%s/prelude_test.go"' "$PWD" "$D"
    printf '}}'
} > "$T/o.json"
go test -vet=off -overlay "$T/o.json" -run '^TestDemo$' -count=1 -timeout 240s . > "$T/log" 2>&1
rc=$?
tail -n 15 "$T/log"
exit $rc
''')
os.chmod(f'{d}/demo.sh',0o755)
json.dump({"property":ns['PROP'],"needs":ns['NEEDS'],"what_it_breaks":ns['BREAKS']},open(f'{d}/meta.json','w'),indent=1)
def demo():
    r=subprocess.run(['bash',f'{d}/demo.sh'],cwd=wt,capture_output=True,text=True)
    return r.returncode,r.stdout[-600:]
a=demo()
for f,o,n in ns['edits']:
    s=open(f'{wt}/{f}').read()
    assert s.count(o)>=1,(f,o)
    cnt=ns.get('COUNT',{}).get(o,1)
    if s.count(o)!=cnt: print('WARN count',s.count(o),o)
    s=s.replace(o,n,1)
    open(f'{wt}/{f}','w').write(s)
p=subprocess.run(['git','diff'],cwd=wt,capture_output=True,text=True).stdout
open(f'{d}/patch.diff','w').write(p)
bld=subprocess.run('. /opt/vp/env.sh; go build -o /dev/null . && gofmt -l .',shell=True,cwd=wt,capture_output=True,text=True)
b=demo()
print(idn,'clean',a[0],'patched',b[0],'build',bld.returncode,bld.stdout,bld.stderr)
if a[0]!=0: print(a[1])
if b[0]==0 or '-v' in sys.argv: print(b[1])
