# mutate.py <seed> <count>: changes random lines of a scratch copy of /repo, keeps those the tests accept,
# and prints which checks report each
import re, os, sys, random, subprocess, shutil, json, time
seed=int(sys.argv[1]); count=int(sys.argv[2]); W=f'/tmp/mut/w{seed}'
ids=[f'C{i:02}' for i in range(1,29) if i!=22]
first=len(sys.argv)>3  # any third argument: only the first check that reports it
if first: ids.sort(key=lambda c: c not in ('C23','C24','C18','C19','C06','C03'))
def sh(c,cwd,env=None,t=900):
    e=dict(os.environ); e.update(env or {})
    try: return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,env=e,timeout=t)
    except subprocess.TimeoutExpired: return None
shutil.rmtree(W,ignore_errors=True); os.makedirs(W+'/v'); 
sh(f'git -C /repo archive --prefix=repo/ HEAD | tar x -C {W}',W)
sh(f'cp -a /verif/harness {W}/v/harness; rm -rf {W}/v/harness/target/asan {W}/v/harness/target/miri {W}/v/harness/target/tsan; cp /verif/known_findings.txt {W}/v/; cp /repo/Cargo.lock {W}/repo/; sed -i "s#path = \\"/repo\\"#path = \\"{W}/repo\\"#" {W}/v/harness/Cargo.toml',W)
files=[]
for root,_,fs in os.walk(W+'/repo/src'):
    for f in fs:
        p=os.path.join(root,f)
        if f.endswith('.rs') and os.environ.get('ONLY','') in p and f not in ('verif_hooks.rs','tests.rs'): files.append(p)
KW=re.findall(r'^\s+([A-Z_]+),',open(W+'/repo/src/lexer/keywords.rs').read(),re.M)
TT=['Comma','Ellipsis','ExclamationMark','QuestionMark','BukkitSlotAccess']
def sites():
    out=[]
    for p in files:
        s=open(p).read()
        m=re.search(r'#\[cfg\(test\)\]\n(pub )?mod \w+ \{',s)
        cut=m.start() if m else len(s)
        lines=s[:cut].split('\n'); off=0
        for i,l in enumerate(lines):
            st=l.strip()
            if not st or st.startswith('//') or st.startswith('use ') or st.startswith('#') or st.startswith('pub use'): continue
            def add(n): out.append((p,i,l,n))
            for a,b in [('==','!='),('!=','=='),('&&','||'),('||','&&'),('true','false'),('false','true'),('is_none()','is_some()'),('is_some()','is_none()'),('!remaining','remaining'),('pop_back','pop_front'),('push_back','push_front'),('.rev()',''),('.first()','.last()'),('.last()','.first()'),('.front()','.back()'),('.back()','.front()'),('range.0','range.1'),('range.1','range.0'),('start_line','end_line'),('end_line','start_line'),('.range().0','.range().1'),('.range().1','.range().0'),('next_if_token_type_eq','next_if_token_type_ne'),('next_if_token_type_ne','next_if_token_type_eq'),('+ 1','+ 2'),('.flatten()',''),('starts_with','ends_with'),('starts_with','contains'),('.find(','.rfind('),('bytes','chars'),('column','line'),('left','right'),('right','left'),('tokens.next()','tokens.peek().cloned()'),('tokens.peek()','tokens.next().as_ref()'),('MissingToken','UnexpectedToken'),('UnexpectedToken','MissingToken'),('if_true','if_false'),('code.len()','code.len() - 1'),("' '","'x'"),('retain','retain_mut'),('while let','if let'),('break','continue'),(' None =>',' None if true =>'),('is_ascii_alphabetic','is_alphabetic'),('is_ascii_alphanumeric','is_alphanumeric'),('is_ascii_alphanumeric','is_ascii_alphabetic'),('is_ascii_digit','is_numeric'),('is_ascii_alphabetic','is_ascii_uppercase'),("'\\n'","'\\r'"),('self.next()','None'),('.or_else(|| self.next())',''),('.count() as i32','.count().min(1) as i32'),('yr_token','first_token'),('first_token','yr_token'),('im_outta_yr)','first_token)'),('itz_token)','has_a_token)'),('has_a_token)','itz_token)'),('r_token)','identifier.last_token())'),('slot_access_token)','first_token)'),('.chars()','.bytes()'),('symbol == "?"','true'),('.peek()','.next()')]:
                for m in re.finditer(re.escape(a),l):
                    add(l[:m.start()]+b+l[m.end():])
            for m in re.finditer(r'\b\d+\b',l):
                n=int(m.group()); 
                for b in {n+1,max(n-1,0),0}-{n}: add(l[:m.start()]+str(b)+l[m.end():])
            for m in re.finditer(r'Keywords::([A-Z_]+)',l):
                for b in random.sample(KW,2):
                    if b!=m.group(1): add(l[:m.start(1)]+b+l[m.end(1):])
                # drop an alternative
            for m in re.finditer(r'Keywords::[A-Z_]+ \| |\| Keywords::[A-Z_]+',l): add(l[:m.start()]+l[m.end():])
            for m in re.finditer(r'TokenType::(%s)\b'%'|'.join(TT),l):
                add(l[:m.start(1)]+random.choice(TT)+l[m.end(1):])
            for m in re.finditer(r'\b(\w+Error)::(\w+)\(',l):
                vs=list(set(re.findall(m.group(1)+r'::(\w+)\(',''.join(open(q).read() for q in files))))
                b=random.choice(vs)
                if b!=m.group(2): add(l[:m.start(2)]+b+l[m.end(2):])
            if st.endswith(';') and not st.startswith('let ') and not st.startswith('return') and '=>' not in st: add('')
            if st.endswith('?;'): add(l.replace('?;','.ok();'))
            if st.startswith('if ') and st.endswith('{'): add(l.replace('if ','if true || ',1) if 'let' not in st else l); add(l.replace('if ','if false && ',1) if 'let' not in st else l)
            if re.match(r'.*=> \w+,$',st): pass
    return [x for x in out if x[2]!=x[3]]
random.seed(seed); S=sites(); random.shuffle(S)
print(len(S),'sites',flush=True)
done=0; log=open(f'/tmp/mut/log{seed}.txt','a')
for p,i,old,new in S:
    if done>=count: break
    s=open(p).read(); L=s.split('\n'); assert L[i]==old; L[i]=new
    open(p,'w').write('\n'.join(L))
    try:
        r=sh('cargo test --offline --lib',W+'/repo',{'CARGO_TARGET_DIR':W+'/t'},120)
        if r is None or r.returncode: continue
        sh("find target -path '*/.fingerprint/*' -maxdepth 6 -type d \\( -name 'lolcode*' -o -name 'lcmon*' \\) -exec rm -rf {} +",W+'/v/harness')
        r=sh('cargo build --offline',W+'/v/harness',{'RUSTFLAGS':'--cfg lolcode_verif','CARGO_TARGET_DIR':W+'/v/harness/target'})
        tag=f'{p[len(W)+6:]}:{i+1} -{old.strip()} +{new.strip()}'
        if r.returncode: print('NOBUILD',tag,r.stderr[-300:],flush=True); continue
        caught=[];other=[]
        for c in ids:
            r=sh(f'./target/debug/lcmon check {c}',W+'/v/harness',{'LCMON_ROOT':W+'/v','LCMON_REPO':W+'/repo','VERIF_SEED':'1','LCMON_BUDGET':os.environ.get('LCMON_BUDGET','12')})
            if r is None: other.append((c,'timeout'))
            elif r.returncode==1: caught.append(c)
            if first and caught: break
            elif r.returncode: other.append((c,r.returncode,r.stderr[-200:]))
        done+=1
        m=f"{'KILLED' if caught else 'SURVIVED'} {len(caught)} {tag} :: {' '.join(caught)} {other or ''}"
        print(m,flush=True); log.write(m+'\n'); log.flush()
    finally:
        open(p,'w').write(s)
shutil.rmtree(W)
