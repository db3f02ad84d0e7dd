#!/usr/bin/env python3
"""mkseed.py <id> <property> <file> <old> <new> <pkg> <demo_test_file> <needs> <what>  - validates and stores one planted bug"""
import sys,os,subprocess,shutil,json,tempfile
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
DEMO='''#!/bin/bash
# exit 0: behaves as specified; nonzero: broken
dir="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
repo="$(pwd)"
tmp="$(mktemp -d)" || exit 3
trap 'rm -rf -- "$tmp"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$repo" "$dir" > "$tmp/ov.json"
go test -overlay "$tmp/ov.json" -vet=off -count=1 -timeout 120s -run 'TestZZDemo' ./%(pkg)s
'''
def main(i,prop,edits,pkg,demo,needs,what):
    d=f'/verif/seeded/{i}'
    wt=tempfile.mkdtemp(prefix='seedwt-')
    shutil.rmtree(wt); sh(f'git -C /repo worktree prune')
    r=sh(f'cp -a /repo {wt}'); assert r.returncode==0,r
    try:
        base=set(json.load(open('/opt/vp/BASELINE.json')).get('stable',[])) if False else None
        for f,old,new in edits:
            p=f'{wt}/{f}'; s=open(p).read()
            assert s.count(old)==1,(f,old,s.count(old))
            open(p,'w').write(s.replace(old,new))
        diff=sh(f'git -C {wt} diff').stdout
        os.makedirs(d,exist_ok=True)
        open(f'{d}/patch.diff','w').write(diff)
        open(f'{d}/demo.sh','w').write(DEMO%dict(pkg=pkg)); os.chmod(f'{d}/demo.sh',0o755)
        open(f'{d}/demo_test.go.txt','w').write(demo)
        json.dump({'property':prop,'needs':needs,'what_it_breaks':what},open(f'{d}/meta.json','w'),indent=1)
        env='. /opt/vp/env.sh; '
        r=sh(env+f'cd {wt} && go build ./... && go test -vet=off -count=1 ./... 2>&1',executable='/bin/bash')
        fails=[l for l in r.stdout.splitlines() if l.startswith('--- FAIL') or l.startswith('FAIL')]
        stable=set(json.load(open('/tmp/basefails.json'))) if os.path.exists('/tmp/basefails.json') else set()
        bad=[l for l in fails if l.split(' (')[0] not in stable and not l.startswith('FAIL')]
        a=sh(f'cd {wt} && bash {d}/demo.sh'); 
        b=sh(f'cd /repo && bash {d}/demo.sh')
        ok = (not bad) and a.returncode!=0 and b.returncode==0 and r.stderr==''
        print(i,'OK' if ok else 'BAD','| existing tests failing:',bad,r.stderr[:500],'| demo patched',a.returncode,'clean',b.returncode)
        if b.returncode!=0: print(b.stdout[-3000:],b.stderr[-2000:])
        if a.returncode!=0: print('   ',[l for l in a.stdout.splitlines() if 'demo' in l.lower() or 'panic' in l][:3])
        if not ok: shutil.rmtree(d)
    finally:
        shutil.rmtree(wt)
