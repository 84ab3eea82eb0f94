#!/usr/bin/env python3
"""seed.py NAME PROP PKG NEEDS BREAKS [--check P1,P2..]: validates the planted bug in /verif/seeded/NAME.
The directory holds patch.diff and demo_test.go (package PKG dir); writes demo.sh and meta.json."""
import sys,os,json,subprocess,shutil
name,prop,pkg,needs,breaks=sys.argv[1:6]
check=[prop]
if len(sys.argv)>7: check=sys.argv[7].split(',')
d='/verif/seeded/'+name
open(d+'/demo.sh','w').write(f'''#!/bin/bash
# exit 0 when the behaviour is right; runs in the repository
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
. /opt/vp/env.sh
cd "$R" || exit 1
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
printf '{{"Replace": {{"%s/{pkg}/zz_demo_test.go": "%s/demo_test.go"}}}}' "$R" "$D" > "$T/overlay.json"
go test -count=1 -vet=off -timeout 120s -overlay "$T/overlay.json" -run TestDemo ./{pkg}/
''')
json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
sw='/tmp/sw-'+name
subprocess.run(['rm','-rf',sw]); subprocess.check_call(['cp','-a','/repo',sw])
ok=True
try:
    subprocess.check_call(['git','checkout','-q','--','.'],cwd=sw)
    subprocess.check_call(['git','apply',d+'/patch.diff'],cwd=sw)
    env=dict(os.environ)
    ov=open('/opt/vp/overlay/overlay.json').read().replace('/repo/',sw+'/')
    open(f'/tmp/ov-{name}.json','w').write(ov)
    src=f'. /opt/vp/env.sh; cd {sw}; '
    r=subprocess.run(['bash','-c',src+f'go build ./... && go test -json -vet=off -count=1 -timeout 10m -overlay /tmp/ov-{name}.json ./... > /tmp/log-{name}; python3 /opt/vp/results.py /tmp/res-{name}.json gojson:/tmp/log-{name}'],capture_output=True,text=True)
    base=json.load(open('/opt/vp/BASELINE.json')); res=json.load(open(f'/tmp/res-{name}.json'))
    stable=base.get('stable') or base.get('passed') or base
    names=stable if isinstance(stable,list) else stable.get('tests',[])
    passed=set(res.get('passed') or [])
    miss=[t for t in names if t not in passed]
    if miss or not names: ok=False; print('STABLE TESTS FAIL',len(names),miss[:5],r.stderr[-500:])
    r=subprocess.run(['bash',d+'/demo.sh'],cwd='/repo',capture_output=True,text=True)
    if r.returncode: ok=False; print('DEMO FAILS ON CLEAN',r.stdout[-1500:])
    r=subprocess.run(['bash',d+'/demo.sh'],cwd=sw,capture_output=True,text=True)
    if r.returncode==0: ok=False; print('DEMO PASSES WITH PATCH')
    elif 'build failed' in r.stdout: ok=False; print('DEMO BUILD FAILED', r.stdout)
    print('VALID' if ok else 'INVALID')
    for c in check:
        e=dict(os.environ,VERIF_DIR='/verif',VERIF_REPO=sw,VERIF_SEED='1')
        r=subprocess.run(['bash','-c',f'. /opt/vp/env.sh; exec /verif/.bin/gvc check {c} quick'],env=e,capture_output=True,text=True)
        print(c,'exit',r.returncode,'\n   ','\n    '.join(r.stdout.strip().split('\n')[-8:]),r.stderr[-300:])
finally:
    subprocess.run(['rm','-rf',sw,f'/tmp/res-{name}.json',f'/tmp/log-{name}',f'/tmp/ov-{name}.json'])
