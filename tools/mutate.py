#!/usr/bin/env python3
"""Small mechanical changes to the library: mutate.py gen|tests|checks
gen lists them, tests keeps those that build and pass the stable tests, checks runs every check
(with fewer runs) against those until one objects. All of it on copies under /tmp/pb."""
import sys,os,subprocess,re,json,glob,threading,queue
V='/verif'; W='/tmp/pb/mut'; M='/tmp/pb/mut/list.json'
STABLE=None
def sh(c,cwd=None,env=None,timeout=900):
    e=dict(os.environ); e.update(env or {})
    try: p=subprocess.run(c,shell=True,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout)
    except subprocess.TimeoutExpired: return 124,'timeout'
    return p.returncode,p.stdout
def code_lines(path):
    L=open(path).read().split('\n'); skip=False; out=[]; attr=False
    for n,l in enumerate(L):
        if re.match(r'#\[test\]',l) or re.match(r'#\[cfg\(test\)\]',l): attr=True
        if attr and not skip:
            if re.match(r'(pub )?(fn|mod|impl)\b',l) and not l.rstrip().endswith(';'): skip=True; attr=False
            elif re.match(r'(use|mod) .*;',l): attr=False; continue
            elif l and not l.startswith('#'): attr=False
        if skip:
            if l=='}': skip=False
            continue
        if attr or l.strip().startswith('//') or l.strip().startswith('#') or not l.strip() or l.startswith('use '): continue
        out.append(n)
    return L,out
SUBS=[(r' == ',' != '),(r' != ',' == '),(r' && ',' || '),(r' \|\| ',' && '),(r' > ',' >= '),(r' < ',' <= '),(r' <= ',' < '),(r' >= ',' > '),(r'\bif !','if '),(r'\bif (?!let|!)','if !'),
 (r'while !','while '),(r' \+ ',' - '),(r' - ',' + '),(r' \+= ',' -= '),(r' -= ',' += '),(r'\btrue\b','false'),(r'\bfalse\b','true'),
 (r'\.first\(\)','.last()'),(r'\.find\(','.rfind('),(r'\.any\(','.all('),(r'unwrap_or\(""\)','unwrap_or("x")'),(r'min\(','max('),(r'many0\(','many1('),(r'\bcut\(','('),(r'opt\(line_ending\)','line_ending'),
 (r'multispace0','nom::character::complete::space0'),(r'space0','nom::character::complete::multispace0'),(r'line_ending','tag("\\n")'),(r'tag_no_case\(','tag('),(r'eof','nom::combinator::rest'),
 (r'starts_with\(','ends_with('),(r'strip_suffix','strip_prefix'),(r'strip_prefix','strip_suffix'),(r'mem::take\(&mut ([\w.]+)\)',r'\1.clone()'),(r'\?;$','.ok();'),(r'\.ok\(\)\?','.unwrap()'),
 (r'\.values\(\)','.values().rev()'),(r'\.values\(\)','.values().skip(1)'),(r'\.into_iter\(\)','.into_iter().skip(1)'),(r'\.into_iter\(\)','.into_iter().rev()'),(r'\.iter\(\)','.iter().skip(1)'),(r'\.iter\(\)','.iter().rev()'),
 (r'&self\.(properties|components)\b',r'self.\1.iter().rev()'),(r'self\.(properties|components)\(\) ',r'self.\1().iter().rev() '),
 (r'\.push\(','.insert(0, '),(r'Some\((\w+)\)$','None'),(r'or_else\(','and_then('),(r"'n' \| 'N'","'n'"),(r'is_alphanumeric','is_ascii_alphanumeric'),(r'\.contains\(','.starts_with('),(r'take_while\(','nom::bytes::complete::take_while1('),(r'take_till1\(','nom::bytes::complete::take_till('),
 (r'unwrap_or\(val\)','unwrap_or("")'),(r'swap_remove\(0\)','pop().unwrap()'),(r'\.extend\(','.splice(0..0, '),(r'\.to_lowercase\(\)',''),(r'\.clone\(\)','.clone().to_uppercase()'),(r'-duration','duration'),(r'\.flatten\(\)','.flatten().skip(1)'),(r'contains_key\(','is_empty() || !self.properties().contains_key(')]
def gen():
    out=[]; seen=set()
    for f in sorted(glob.glob('/repo/src/**/*.rs',recursive=True)):
        rel=f[len('/repo/'):]
        if rel in('src/assert.rs','src/period.rs','src/repeats.rs','src/parser/tests.rs'): continue
        L,N=code_lines(f)
        for n in N:
            l=L[n]; c=[]
            for a,b in SUBS:
                for m in re.finditer(a,l): c.append(l[:m.start()]+m.expand(b)+l[m.end():] if '\\' in b else l[:m.start()]+b+l[m.end():])
            for m in re.finditer(r'(?<![\w."])(\d+)(?![\w".])',l):
                for d in(1,-1):
                    v=int(m.group(1))+d
                    if v>=0: c.append(l[:m.start()]+str(v)+l[m.end():])
            for m in re.finditer(r'"([^"\\]+)"',l):
                s=m.group(1)
                if 'note' in l or 'context(' in l or 'feature' in l: continue
                c.append(l[:m.start()]+'"'+s[:-1]+('_' if s[-1]!='_' else 'q')+'"'+l[m.end():])
            for m in re.finditer(r"'(\\?.)'",l): c.append(l[:m.start()]+"'\\u{1}'"+l[m.end():])
            if re.match(r'^\s+\S.*;$',l) and not re.match(r'^\s*(let|return|use|const|type|static)\b',l): c.append('')
            if re.match(r'^\s+\S.*=>.*,$',l): c.append('')
            for x in c:
                k=(rel,n,x)
                if k not in seen and x!=l: seen.add(k); out.append({'f':rel,'n':n,'old':l,'new':x})
    os.makedirs(W,exist_ok=True); json.dump(out,open(M,'w')); print(len(out))
def apply(R,m):
    p=f"{R}/{m['f']}"; L=open(p).read().split('\n'); assert L[m['n']]==m['old']; L[m['n']]=m['new']; open(p,'w').write('\n'.join(L))
def clone(R):
    if not os.path.exists(R): sh(f'git clone -q /repo {R}')
    sh('git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git clean -qfd src',R)
def par(n,items,work):
    q=queue.Queue(); [q.put(i) for i in items]; lock=threading.Lock()
    def go(k):
        while True:
            try: m=q.get_nowait()
            except queue.Empty: return
            work(k,m,lock)
    T=[threading.Thread(target=go,args=(k,)) for k in range(n)]; [t.start() for t in T]; [t.join() for t in T]
def tests(n):
    L=json.load(open(M))
    for k in range(n): clone(f'{W}/t{k}')
    stable=set(json.load(open('/opt/vp/BASELINE.json')).get('stable',[]) or [])
    def work(k,m,lock):
        if 'res' in m: return
        R=f'{W}/t{k}'; sh('git checkout -q -- .',R); apply(R,m)
        e={'CARGO_TARGET_DIR':f'{W}/target{k}','TZ':'UTC','RUSTUP_TOOLCHAIN':'stable-x86_64-unknown-linux-gnu','CARGO_BUILD_JOBS':'2'}
        rc,o=sh('cargo check -q --offline --all-features',R,e)
        if rc: m['res']='build'
        else:
            rc,o=sh('timeout 200 cargo test --lib --tests --all-features --no-fail-fast --offline -- --test-threads 4',R,e)
            m['res']='pass' if rc==0 else 'fail'
            if rc==0:
                rc,o=sh('timeout 200 cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 4',R,e)
                if rc: m['res']='fail'
        with lock: json.dump(L,open(M+'.new','w')); os.replace(M+'.new',M)
    par(n,L,work)
    from collections import Counter; print(Counter(m['res'] for m in L))
def checks(n,scale):
    L=json.load(open(M)); S=[m for m in L if m.get('res')=='pass' and 'by' not in m]
    for k in range(n):
        R=f'{W}/q{k}'; clone(R); v=f'{W}/v{k}'
        sh(f'mkdir -p {v} && cd {V} && git ls-files -z --cached --others --exclude-standard | grep -zv ^seeded/ | tar c --null -T - | tar x -C {v}')
        sh(f"sed -i 's|/repo|{R}|g' sim/subject/Cargo.toml build.sh sim/rustc-wrap.sh",v)
    order=['C07','C06','C05','C15','C01','C12','C13','C14','C08','C03','C04','C02','C11','C09','C20','C10']
    def work(k,m,lock):
        R=f'{W}/q{k}'; sh('git checkout -q -- .',R); apply(R,m); by=''
        for c in order:
            rc,o=sh(f'./check.sh {c}',f'{W}/v{k}',{'VERIF_SEED':'1','ICALSIM_SHRINK_S':'1','ICALSIM_SCALE':scale,'ICALSIM_WORKERS':'4'})
            if rc==1: by=c; break
            if rc: by=f'{c} error {o[-300:]}'; break
        with lock:
            m['by']=by; json.dump(L,open(M+'.new','w')); os.replace(M+'.new',M)
            if not by or 'error' in by: print('SURVIVES' if not by else by,m['f'],m['n']+1,'\n  -',m['old'].strip(),'\n  +',m['new'].strip(),flush=True)
    par(n,S,work)
    from collections import Counter; print(Counter(m['by'][:3] for m in S))
a=sys.argv[1:]
{'gen':gen,'tests':lambda:tests(int(a[1])),'checks':lambda:checks(int(a[1]),a[2])}[a[0]]()
