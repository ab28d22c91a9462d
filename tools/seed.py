import os, subprocess, json, sys, shutil
R='/tmp/seedrepo'
if not os.path.exists(R): subprocess.check_call(['cp','-a','/repo',R])
subprocess.check_call(['git','-C',R,'fetch','-q','/repo','HEAD']); subprocess.check_call(['git','-C',R,'reset','-q','--hard','FETCH_HEAD'])
DEMO='''#!/bin/bash
# Run in the repository (cwd) after the build: exit 0 when the property holds.
D="$(cd "$(dirname "$0")" && pwd)"; R="$(pwd)"; PKG=%s
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
export HOME="${HOME:-/root}" PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
cp "$R/go.mod" "$T/m.mod"; cat "$R/go.sum" /opt/vp/extra.sum 2>/dev/null | LC_ALL=C sort -u > "$T/m.sum"
export GOFLAGS="-mod=readonly -modfile=$T/m.mod"
{ echo '{"Replace":{'; for f in "$R/$PKG"/*_test.go; do [ -e "$f" ] && echo "\\"$f\\":\\"\\","; done
echo "\\"$R/$PKG/zz_demo_test.go\\":\\"$D/demo_test.go\\"}}"; } > "$T/o.json"
cd "$R" && go test -vet=off -overlay "$T/o.json" -count=1 -timeout 200s -run TestDemo "./$PKG"
'''
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def S(id,prop,edits,pkg,demo,needs,breaks,tests=True):
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    sh('git checkout -q -- .',cwd=R)
    open(d+'/demo.sh','w').write(DEMO%pkg); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo_test.go','w').write(demo)
    r=sh('gofmt -l '+d+'/demo_test.go'); 
    if r.stdout: sh('gofmt -w '+d+'/demo_test.go')
    c=sh('bash '+d+'/demo.sh',cwd=R)
    if c.returncode!=0: print(id,'DEMO FAILS ON CLEAN\n',c.stdout[-1500:]); return
    for f,a,b in edits:
        s=open(R+'/'+f).read()
        if s.count(a)!=1: print(id,'edit count',s.count(a),a); return
        open(R+'/'+f,'w').write(s.replace(a,b))
    sh('gofmt -w '+' '.join(R+'/'+f for f,_,_ in edits))
    p=sh('git diff',cwd=R).stdout
    open(d+'/patch.diff','w').write(p)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    c=sh('. /opt/vp/env.sh && go build ./cipher/... ./uid/... ./msg/... ./encode/... ./mix/... ./keyserver/... ./util/... ./serviceguard/... ./configclient/... ./tui/... ./keydb/... ./encdb/... && for p in '+pkg+'; do go vet ./$p >/dev/null 2>&1; done; true',cwd=R,executable='/bin/bash')
    if c.stdout.strip(): print(id,'BUILD',c.stdout[-800:]); return
    c=sh('bash '+d+'/demo.sh',cwd=R)
    if c.returncode==0: print(id,'DEMO PASSES WITH PATCH'); return
    dm=[l for l in c.stdout.splitlines() if 'demo' in l][:2]
    t=sh('. /opt/vp/env.sh && go test -count=1 ./%s/... ./msg/... ./uid/... ./cipher/... ./mix/... ./encode/... ./util/... ./keyserver/... ./keydb ./encdb ./tui/... 2>&1 | grep -v "^ok\\|no test files\\|^FAIL$" | grep -- "--- FAIL" '%pkg,cwd=R,executable='/bin/bash')
    print(id,'ok; demo:',dm,'TESTFAIL:' if t.stdout.strip() else '',t.stdout.strip()[:300])
    # does the check catch it?
    env=dict(os.environ,GOVC_REPO=R)
    sh('git checkout -q -- .',cwd=R)
