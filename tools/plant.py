#!/usr/bin/env python3
"""plant.py SPECFILE...: python spec defining ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (bash), FILES={name: text}"""
import sys, os, subprocess, shutil, json
BASE='deb3308'
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
def main(spec):
    ns={}
    exec(open(spec).read(), ns)
    ID=ns['ID']
    wt=f'/tmp/pl/wt_{ID}'
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree('/repo', wt, symlinks=True)
    try:
        blame={}
        orig=False
        for f,old,new in ns['EDITS']:
            p=f'{wt}/{f}'; s=open(p).read()
            if s.count(old)!=1:
                print(ID,'EDIT mismatch',f,s.count(old),repr(old[:60])); return
            open(p,'w').write(s.replace(old,new))
        sh('gofmt -w flatjsonl cmd', cwd=wt)
        d=sh('git diff -U3', cwd=wt).stdout
        # original lines changed?
        cur=None; ln=0; removed=[]
        for l in d.split('\n'):
            if l.startswith('--- a/'): cur=l[6:]
            elif l.startswith('@@'): ln=int(l.split()[1].split(',')[0][1:])
            elif l.startswith('-'): removed.append((cur,ln)); ln+=1
            elif l.startswith('+'): pass
            else: ln+=1
        o=0
        for f,n in removed:
            b=sh(f'git blame -l -s -L {n},{n} HEAD -- {f}',cwd='/repo').stdout
            h=b.split()[0].lstrip('^')
            if sh(f'git rev-parse {BASE}',cwd='/repo').stdout.startswith(h[:39]): o+=1
        print(ID,f'removed lines: {len(removed)}, original: {o}')
        out=f'/tmp/pl/out/{ID}'
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(f'{out}/patch.diff','w').write(d)
        for n,t in ns.get('FILES',{}).items(): open(f'{out}/{n}','w').write(t)
        open(f'{out}/demo.sh','w').write('#!/bin/bash\n'+ns['DEMO'].lstrip('\n')); os.chmod(f'{out}/demo.sh',0o755)
        json.dump({'property':ns['PROP'],'needs':ns['NEEDS'],'what_it_breaks':ns['BREAKS']},open(f'{out}/meta.json','w'),indent=1)
        # build & test in copy: bind path /repo replaced
        env='. /opt/vp/env.sh; cd '+wt+'; '
        r=sh(['bash','-c',env+'go build ./... && go vet ./flatjsonl >/dev/null 2>&1; go build ./...'] if False else env+'go build ./...')
        if r.returncode: print(ID,'BUILD FAILS',r.stderr[-800:]); return
        r=sh(env+'rm -f flatjsonl/testdata/*.{csv,sqlite,raw,gz,pg.sql}; go test -json -vet=off -count=1 ./... > /tmp/pl/t_%s.json; python3 /opt/vp/results.py /tmp/pl/r_%s.json gojson:/tmp/pl/t_%s.json'%(ID,ID,ID), executable='/bin/bash')
        res=json.load(open(f'/tmp/pl/r_{ID}.json')); base=json.load(open('/opt/vp/BASELINE.json'))
        bs=base.get('passed') or base.get('stable') or base.get('tests') or base
        ps=set(res.get('passed') or [])
        missing=[t for t in bs if t not in ps]
        if missing: print(ID,'TESTS FAIL',missing[:5]); return
        for n in range(int(ns.get('TRIES',3))):
            a=sh(f'cp -a {out} /tmp/pl/d_{ID}; cd /repo; timeout 300 bash /tmp/pl/d_{ID}/demo.sh')
            b=sh(f'cd {wt}; timeout 300 bash /tmp/pl/d_{ID}/demo.sh')
            shutil.rmtree(f'/tmp/pl/d_{ID}',ignore_errors=True)
            print(ID,'demo clean',a.returncode,'patched',b.returncode,(b.stdout+b.stderr)[-300:].strip() if n==0 else '')
            if a.returncode: print('CLEAN OUT',a.stdout[-500:],a.stderr[-800:])
            if a.returncode or not b.returncode: return
        dst=f'/verif/seeded/{ID}'
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out,dst)
        r=sh(f'git apply --check {dst}/patch.diff',cwd='/repo')
        print(ID,'KEPT',r.stderr)
    finally:
        shutil.rmtree(wt, ignore_errors=True)
for s in sys.argv[1:]: main(s)
