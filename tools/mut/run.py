import json,subprocess,sys,os,random,time,fcntl
N=sys.argv[1]
ms=json.load(open('/tmp/plant/mut/mutants.json'))
order=list(range(len(ms))); random.Random(7).shuffle(order)
props=[f"C{i:02}" for i in range(1,32) if i!=28]
OUT='/tmp/plant/mut/results.jsonl'
CL='/tmp/plant/mut/claims'; os.makedirs(CL,exist_ok=True)
def sh(c,t,**k):
    try:
        r=subprocess.run(['timeout','-k','5',str(t),'bash','-c',c],capture_output=True,text=True,**k)
        return r.returncode,r.stdout+r.stderr
    except Exception as e: return 99,str(e)
def restore(): subprocess.run("git -C /repo checkout -q -- .",shell=True)
last=props[:]
for k in order:
    try: os.close(os.open(f'{CL}/{k}',os.O_CREAT|os.O_EXCL))
    except FileExistsError: continue
    m=ms[k]; p=f"/repo/program/src/{m['file']}"
    restore()
    L=open(p).read().split('\n')
    a=m['line']-1;b=m.get('line2',m['line'])
    L[a:b]=[m['text']]
    open(p,'w').write('\n'.join(L))
    t0=time.time()
    r=dict(m)
    # build (release only)
    sh("cd /verif/sim && cargo clean --offline --release -p asset-agnostic-orderbook 2>/dev/null",60)
    rc,o=sh("cd /verif/sim && cargo build --offline --release --quiet 2>&1 | grep -E '^error' -A5 | head -20; exit ${PIPESTATUS[0]}",300)
    if rc!=0: r['res']='nobuild'; r['msg']=o[:300]
    else:
        res=None
        for q in last:
            rc,o=sh(f"ulimit -v 12000000; /verif/target/release/aosim survey {q} 1 0 100 2>/dev/null",60)
            if rc!=0: res=('crash',f'{q} rc {rc}'); break
            if o.strip(): res=('killed',o.split('\n')[0][:300]); break
        if res is None:
            rc,o=sh("cd /repo/program && RUST_LOG=off cargo test --no-fail-fast --offline -- --test-threads 8 2>&1 | grep -E '^test .*FAILED|^error'",400)
            bad=[l for l in o.split('\n') if l and 'market_cast' not in l]
            res=('SURVIVES' if not [b for b in bad if 'FAILED' in b or 'error' in b and 'test failed' not in b and 'targets failed' not in b] else 'testkilled',' '.join(bad)[:200])
        else:
            pr=res[1].split(':')[0].split()[0]
            if pr in last: last.remove(pr); last.insert(0,pr)
        r['res'],r['msg']=res
    r['secs']=round(time.time()-t0,1)
    with open(OUT,'a') as f:
        fcntl.flock(f,fcntl.LOCK_EX); f.write(json.dumps(r)+'\n')
restore()
