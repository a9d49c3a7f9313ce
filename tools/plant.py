#!/usr/bin/env python3
"""Makes and verifies planted bugs (see DESIGN.md): plant.py make|check [id...]
make:  writes seeded/<id>/ from bugs*.py, verifying in a scratch copy that the change
       builds, passes the stable tests, and that the demonstration tells the trees apart.
check: applies each to /repo, runs the property's check (or those after --checks), and undoes it."""
import sys,os,subprocess,json,re,glob,shutil
V='/verif'; R='/tmp/pb/repo'; T='/tmp/pb/target'
sys.path.insert(0,V+'/tools')
def sh(c,cwd=None,env=None,timeout=1200):
    e=dict(os.environ); e.update(env or {})
    p=subprocess.run(c,shell=True,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout)
    return p.returncode,p.stdout
def bugs():
    d={}
    for f in sorted(glob.glob(V+'/tools/bugs*.py')):
        g={}; exec(open(f).read(),g); d.update(g['BUGS'])
    return d
def reset():
    sh('git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git clean -qfd src',R)
def tests():
    rc,o=sh('cargo check -q --offline && cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8',R,
       {'CARGO_TARGET_DIR':T,'TZ':'UTC','CARGO_NET_OFFLINE':'true','RUSTUP_TOOLCHAIN':'stable-x86_64-unknown-linux-gnu'})
    bad=re.findall(r'^test (.*) \.\.\. FAILED',o,re.M); ok=len(re.findall(r'^test .* \.\.\. ok',o,re.M))
    return rc,ok,bad,o
def make(ids):
    B=bugs()
    for i in ids or B:
        b=B[i]; d=f'{V}/seeded/{i}'
        if not ids and os.path.exists(d+'/meta.json'): continue
        reset()
        for f,old,new in b['edits']:
            p=f'{R}/{f}'; s=open(p).read()
            if s.count(old)!=1: print(i,'EDIT does not match once',f,s.count(old),repr(old[:60])); break
            open(p,'w').write(s.replace(old,new))
        else:
            rc,diff=sh('git diff',R)
            rc,ok,bad,o=tests()
            if bad or rc or ok<98: print(i,'TESTS fail',ok,bad[:5],o[-1500:] if not bad else ''); reset(); continue
            os.makedirs(d,exist_ok=True)
            open(d+'/patch.diff','w').write(diff)
            open(d+'/demo.rs','w').write(b['demo'])
            shutil.copy(V+'/tools/demo.sh',d+'/demo.sh'); os.chmod(d+'/demo.sh',0o755)
            json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
            rc1,o1=sh(f'{d}/demo.sh',R)
            reset()
            rc0,o0=sh(f'{d}/demo.sh',R)
            print(i,'demo patched',rc1,'clean',rc0,'OK' if rc0==0 and rc1 not in(0,3) else 'BAD\n'+o0[-400:]+'\n---\n'+o1[-400:],flush=True)
            if not (rc0==0 and rc1 not in (0,3)): shutil.rmtree(d)
        reset()
def check(ids,checks):
    # on copies, so that nothing in /repo or /verif changes meanwhile
    W='/tmp/pb/v'; Q='/tmp/pb/q'
    sh(f'mkdir -p {W} && cd {V} && git ls-files -z --cached --others --exclude-standard | grep -zv ^seeded/ | tar c --null -T - | tar x -C {W}')
    sh(f"sed -i 's|/repo|{Q}|g' sim/subject/Cargo.toml build.sh sim/rustc-wrap.sh",W)
    if not os.path.exists(Q): sh(f'git clone -q /repo {Q}')
    sh('git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD',Q)
    B=[os.path.basename(x) for x in sorted(glob.glob(V+'/seeded/*'))]
    for i in ids or B:
        m=json.load(open(f'{V}/seeded/{i}/meta.json'))
        rc,o=sh(f'git apply {V}/seeded/{i}/patch.diff',Q)
        if rc: print(i,'does not apply',o); continue
        try:
            for c in checks or [m['property']]:
                rc,o=sh(f'./check.sh {c}',W,{'VERIF_TIER':'quick','VERIF_SEED':os.environ.get('VERIF_SEED','1'),'ICALSIM_SHRINK_S':'3'})
                v=[l for l in o.splitlines() if l.startswith('VIOLATION')]
                cl=[l for l in o.splitlines() if '(run ' in l][:1]
                print(i,c,'rc',rc,'CAUGHT' if rc==1 and v else 'MISSED' if rc==0 else 'ERROR '+o[-800:],(cl[0][:160] if cl else ''),flush=True)
        finally: sh('git checkout -- .',Q)
a=sys.argv[1:]
ids=[x for x in a[1:] if not re.fullmatch(r'C\d\d',x)]; ch=[x for x in a[1:] if re.fullmatch(r'C\d\d',x)]
if a[0]=='make': make(ids)
else: check(ids,ch)
