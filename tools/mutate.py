"""Plant small changes mechanically in a clone of /repo (/tmp/mut/wt) and run the checks of a copy of /verif (/tmp/mut/vf) on those the unit tests miss.
usage: mutate.py SEED COUNT [PATH-SUBSTRING]   (run by hand)"""
import re, subprocess, sys, os, random, json, time, hashlib
WT="/tmp/mut/wt"; VF="/tmp/mut/vf"
SUBS=[(r' == ',[' != ']),(r' != ',[' == ']),(r' < ',[' <= ']),(r' > ',[' >= ']),(r' <= ',[' < ']),(r' >= ',[' > ']),(r' && ',[' || ']),(r' \|\| ',[' && ']),
 (r'\btrue\b',['false']),(r'\bfalse\b',['true']),(r'\btag_no_case\(',['tag(']),(r'\bmultispace0\b',['multispace1','space0']),(r'\bmultispace1\b',['space1','multispace0']),
 (r'\bmany0\(',['many1(']),(r'\bmany1\(',['many0(']),(r'\bseparated_list1\(',['separated_list0(']),(r'\bseparated_list0\(',['separated_list1(']),
 (r'\.unaliased\(\)',['']),(r'\.is_some\(\)',['.is_none()']),(r'\.is_none\(\)',['.is_some()']),(r'\.rev\(\)',['']),(r'\.asc\(\)',['.desc()']),(r'\.desc\(\)',['.asc()']),
 (r'"left"',['"inner"']),(r'"inner"',['"left"']),(r'\bmin\(',['max(']),(r'\bmax\(',['min(']),(r'\bfirst\(',['last(']),(r'\blast\(',['first(']),
 (r'(?<![\w."])0(?![\w.])',['1']),(r'(?<![\w."])1(?![\w.])',['0','2']),(r'(?<![\w."])(\d\d+)(?![\w.])',['7']),(r' \+ ',[' - ']),(r' - ',[' + ']),(r' \* ',[' + ']),
 (r'\bws\(',['(']),(r'\.skip\(1\)',['']),(r'\bNone =>',None),(r'\.trim\(\)',['']),(r'\.to_lowercase\(\)',['']),(r'\bopt\(',None),(r'\bis_empty\(\)',None),
 (r'upper\(',['lower(']),(r'lower\(',['upper(']),(r'\bsin\(',['cos(']),(r'\bfloor\(',['ceil(']),(r'ceil\(',['floor(']),(r'"([A-Za-z_]{3,12})"',['"\\1x"']),(r"'([A-Za-z_]{3,12})'",["'\\1x'"]),
 (r'\.any\(',['.all(']),(r'\.all\(',['.any(']),(r'preceded\(',None),(r'if !',['if ']),(r'\bSome\(\d+\)',['None']),(r'unwrap_or\((true)\)',['unwrap_or(false)']),(r'unwrap_or\((false)\)',['unwrap_or(true)']),
 (r'\balphanumeric1\b',['alpha1']),(r'digit1',['digit0']),(r'take_while1\(',['take_while(']),(r'is_alphanumeric\(\)',['is_alphabetic()']),(r'"AND"',['"OR"']),(r'"OR"',['"AND"'])]
PSUBS=[(r' == ',[' != ']),(r' != ',[' == ']),(r' is None',[' is not None']),(r' is not None',[' is None']),(r' and ',[' or ']),(r' or ',[' and ']),(r'\bnot ',['']),(r'\bTrue\b',['False']),(r'\bFalse\b',['True']),
 (r'F\.min\b',['F.max']),(r'F\.max\b',['F.min']),(r'F\.first\b',['F.last']),(r'F\.last\b',['F.first']),(r'F\.sum\b',['F.max']),(r' < ',[' <= ']),(r' > ',[' >= ']),(r' <= ',[' < ']),(r' >= ',[' > ']),(r' \+ ',[' - ']),(r' - ',[' + ']),
 (r' \* ',[' + ']),(r' & ',[' | ']),(r'\b0\b',['1']),(r'\b1\b',['2','0']),(r'\b100\b',['10']),(r'isNotNull',['isNull']),(r'isNull\b',['isNotNull']),(r'"(\w{3,14})"',['"\\1x"']),(r'collect_set',['collect_list']),(r'collect_list',['collect_set']),
 (r'stddev_samp|F\.stddev\b',['F.stddev_pop']),(r'var_samp',['var_pop']),(r'\.pop\(',['.get(']),(r'\[-1\]',['[0]']),(r'\[0\]',['[-1]']),(r'\[1:\]',['[2:]'])]
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def files():
    for f in sh(f"cd {WT}; git ls-files src python/spl_transpiler").stdout.split():
        if f.endswith('.rs') and not f.endswith('to_spl.rs') or f.endswith('.py') and 'live' not in f: yield f
def muts(f):
    t=open(f"{WT}/{f}").read()
    bl=sh(f"git -C {WT} blame -s HEAD -- {f}").stdout.splitlines()
    out=[]; doc=False
    for i,l in enumerate(t.split('\n')):
        if f.endswith('.rs') and '#[cfg(test)]' in l: break
        s=l.strip()
        if f.endswith('.py'):
            if s.count('"""')%2==1: doc=not doc; continue
            if doc or s.startswith('"""'): continue
        if not s or s.startswith(('//','#','use ','import','from','assert','pub mod','mod ','warn','///')) or 'macro_rules' in s or 'bail!' in s or 'warn!' in s or 'raise ' in s or 'unreachable' in s: continue
        if i<len(bl) and not bl[i].startswith(('^98a621c','98a621c')): continue
        code=l.split(' // ')[0]
        for pat,reps in (PSUBS if f.endswith('.py') else SUBS):
            if not reps: continue
            for m in re.finditer(pat,code):
                for r in reps:
                    out.append((f,i,l,l[:m.start()]+m.expand(r)+l[m.end():]))
        if f.endswith('.rs') and re.match(r'^(map|into|value|tag|delimited|preceded|separated_pair|[a-z_]+)\b.*\),$',s) and s.count('(')==s.count(')') : out.append((f,i,l,None))
        if f.endswith('.rs') and re.match(r'^[A-Za-z_:(){}"., ]+ => .*,$',s) and s.count('(')==s.count(')'): out.append((f,i,l,None))
        if f.endswith('.py') and re.match(r'^[\w.]+ = ',s) : pass
    return out
ORDER=json.load(open('/tmp/mut/order.json')) if os.path.exists('/tmp/mut/order.json') else {}
ALL=[f"p{i:02d}" for i in range(1,26)]
PRI=[("macro","p20 p21"),("cmd_stats","p10 p24"),("stat_fns","p10 p17"),("functions/stats","p10"),("functions/eval","p15 p14 p16"),("eval_fns","p14 p17 p16 p15 p04"),("convert","p17"),("cmd_search","p07 p08 p09 p02 p03"),("commands/search","p07 p08"),("cmd_rex","p17"),("cmd_regex","p17"),("cmd_join","p13"),("cmd_lookup","p13"),("lookup","p13 p08"),("cmd_sort","p11"),("cmd_head","p11"),("cmd_tail","p11"),("cmd_dedup","p11"),("cmd_top","p11"),("cmd_rare","p11"),("cmd_t_stats","p24"),("tstats","p24"),("data_model","p24"),("cmd_","p12 p09 p22"),("parser","p03 p02 p06 p04 p07 p16 p22"),("operators","p06 p03"),("spl/python","p19"),("ast","p19 p05"),("pyspark/","p05 p09 p18 p06 p07"),("format","p23"),("config","p08"),("magic","p25"),("runtime","p15 p25 p24"),("udfs","p07 p15")]
def order(f):
    o=[]
    for k,v in PRI:
        if k in f: o+=v.split()
    o+=["p22","p02","p09","p15","p05","p04","p19","p18"]
    return list(dict.fromkeys(o))
def run(m,log):
    f,i,old,new=m
    sh(f"git -C {WT} checkout -q .")
    L=open(f"{WT}/{f}").read().split('\n')
    assert L[i]==old
    if new is None: del L[i]
    else: L[i]=new
    open(f"{WT}/{f}",'w').write('\n'.join(L))
    tag=f"{f}:{i+1}: {old.strip()[:110]}  -->  {('DELETED' if new is None else new.strip()[:110])}"
    t0=time.time()
    env="RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=0 RUSTC_WRAPPER= PYO3_PYTHON=/opt/spl-venv/bin/python PATH=/opt/spl-venv/bin:/root/.cargo/bin:$PATH"
    if f.endswith('.rs'):
        r=sh(f"cd {WT}; {env} RUSTFLAGS='-Awarnings -Clink-arg=-lpython3.12' CARGO_TARGET_DIR=/tmp/mut/target PYTHONPATH=/opt/spl-venv/lib/python3.12/site-packages timeout 300 cargo test --workspace --lib --offline -- --test-threads 4")
        if 'could not compile' in r.stdout: return tag,'nocompile',time.time()-t0
        fails=set(re.findall(r'^test (\S+) \.\.\. FAILED',r.stdout,re.M))-BASEFAIL
        if fails or 'test result' not in r.stdout: return tag,'tests',time.time()-t0
    e=dict(os.environ,VF_REPO=WT,VF_OUT="/tmp/mut/out")
    for p in order(f):
        try:
            r=subprocess.run(["/opt/spl-venv/bin/python","-B",f"{VF}/checks/run.py",p,"quick"],cwd=VF,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=300)
        except subprocess.TimeoutExpired:
            return tag,f'TIMEOUT {p}',time.time()-t0
        if r.returncode==1: return tag,f'caught {p}',time.time()-t0
        if r.returncode!=0: return tag,f'RC{r.returncode} {p} '+r.stdout[-300:].replace('\n',' '),time.time()-t0
    return tag,'SURVIVED',time.time()-t0
if __name__=="__main__":
    seed=int(sys.argv[1]); n=int(sys.argv[2]); only=sys.argv[3] if len(sys.argv)>3 else ''
    rng=random.Random(seed)
    by={f:muts(f) for f in files() if only in f}
    by={f:v for f,v in by.items() if v}
    print({f:len(v) for f,v in by.items()},sum(map(len,by.values())),flush=True)
    sh(f"git -C {WT} checkout -q .")
    r=sh(f"cd {WT}; RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=0 RUSTC_WRAPPER= PYO3_PYTHON=/opt/spl-venv/bin/python PATH=/opt/spl-venv/bin:/root/.cargo/bin:$PATH RUSTFLAGS='-Awarnings -Clink-arg=-lpython3.12' CARGO_TARGET_DIR=/tmp/mut/target PYTHONPATH=/opt/spl-venv/lib/python3.12/site-packages cargo test --workspace --lib --offline -- --test-threads 4")
    BASEFAIL=set(re.findall(r'^test (\S+) \.\.\. FAILED',r.stdout,re.M)); print('base fails',BASEFAIL,r.stdout[-200:],flush=True)
    picks=[]
    for f,v in by.items():
        k=max(1,round(n*len(v)**.6/sum(len(x)**.6 for x in by.values())))
        picks+=rng.sample(v,min(k,len(v)))
    rng.shuffle(picks)
    done=set()
    for m in picks:
        if m in done: continue
        done.add(m)
        tag,res,dt=run(m,None)
        print(f"{res} [{dt:.0f}s] {tag}",flush=True)
    sh(f"git -C {WT} checkout -q .")
