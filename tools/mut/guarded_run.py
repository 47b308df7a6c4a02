import json,subprocess,sys,os,time,fcntl
N=sys.argv[1]; LIST=os.environ.get('GMLIST','/tmp/plant/gm/list.json'); OUT=os.environ.get('GMOUT','/tmp/plant/gm/results.jsonl')
CL=OUT+'.claims'; os.makedirs(CL,exist_ok=True)
ms=json.load(open(LIST))
def sh(c,t):
    r=subprocess.run(['timeout','-k','5',str(t),'bash','-c',c],capture_output=True,text=True); return r.returncode,r.stdout+r.stderr
for k,m in enumerate(ms):
    try: os.close(os.open(f'{CL}/{k}',os.O_CREAT|os.O_EXCL))
    except FileExistsError: continue
    sh("git -C /repo checkout -q -- .",60)
    p='/repo/'+m['file']; s=open(p).read()
    for a,b in m['edits']:
        assert s.count(a)==1; s=s.replace(a,b)
    open(p,'w').write(s)
    import re
    for q in ['/repo/program/src/state/critbit.rs','/repo/program/src/state/event_queue.rs']:
        x=open(q).read(); x=re.sub(r'^    (seq_num: u64|leaf_bump_index: u32|leaf_free_list_len: u32|inner_node_free_list_len: u32|inner_node_bump_index: u32)',r'    pub(crate) \1',x,flags=re.M); open(q,'w').write(x)
    t0=time.time()
    rc,o=sh("cd /verif/sim && cargo clean --offline --release -p asset-agnostic-orderbook 2>/dev/null; cargo build --offline --release --quiet 2>&1 | grep -E '^error' -A5 | head -20; exit ${PIPESTATUS[0]}",400)
    r=dict(id=m['id'],prop=m['prop'])
    if rc!=0: r['res']='nobuild'; r['msg']=o[:400]
    else:
        rc,o=sh(f"ulimit -v 12000000; /verif/target/release/aosim survey {m['prop']} 1 0 5000 2>/dev/null",400)
        n=0; other={}
        for l in o.split('\n'):
            if ' x' in l and ': ' in l:
                q=l.split(':')[0]; c=int(l.split(' :: ')[0].rsplit(' x',1)[1])
                if q==m['prop']: n+=c
                else: other[q]=other.get(q,0)+c
        r['res']='rc%d'%rc if rc else n; r['other']=other
    r['secs']=round(time.time()-t0)
    with open(OUT,'a') as f:
        fcntl.flock(f,fcntl.LOCK_EX); f.write(json.dumps(r)+'\n')
sh("git -C /repo checkout -q -- .",60)
