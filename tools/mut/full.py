import json,subprocess,sys,os
ms={m['id']:m for m in json.load(open('/tmp/plant/mut/mutants.json'))}
# the properties nearest first
near={'create_market':['C15','C14'],'close_market':['C16','C14','C22'],'new_order':['C12','C14','C27'],'cancel_order':['C13','C14'],'mass':['C13','C14','C07'],'consume':['C20','C14'],'critbit':['C17','C23','C13','C04'],'event_queue':['C20','C18','C21','C23'],'orderbook':['C03','C08','C10','C11','C07','C21'],'entrypoint':['C14','C29','C25'],'instruction':['C25'],'utils':['C12','C14','C23'],'state.rs':['C23'],'market_state':['C15','C23']}
allp=[f"C{i:02}" for i in range(1,32) if i not in(28,26,31)]
def restore(): subprocess.run("git -C /repo checkout -q -- .",shell=True)
for k in map(int,sys.argv[1:]):
    m=ms[k]; p=f"/repo/program/src/{m['file']}"
    restore()
    L=open(p).read().split('\n')
    L[m['line']-1:m.get('line2',m['line'])]=[m['text']]
    open(p,'w').write('\n'.join(L))
    order=[]
    for key,v in near.items():
        if key in m['file']: order+=v
    order+=[q for q in allp if q not in order]
    got=None
    for q in order:
        r=subprocess.run(['timeout','300','bash','check.sh',q],capture_output=True,text=True,env=dict(os.environ,AOSIM_SECS='20',VERIF_SEED='1',VERIF_TIER='quick'))
        if r.returncode==1:
            got=q+' '+[l for l in r.stdout.split('\n') if l][0][:200]; break
        if r.returncode not in(0,): got=f'{q} exit {r.returncode} '+r.stdout[-200:].replace('\n',' '); break
    with open('/tmp/plant/mut/full.log','a') as f:
        f.write(f"{k} {m['file']} {m['line']} | {m['old'][:70]} => {m['new'][:60]} || {got or 'NOT CAUGHT'}\n")
restore()
