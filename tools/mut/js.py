import json,subprocess,os
ms=json.load(open('/tmp/plant/mut/jsmutants.json'))
for m in ms:
    p='/repo/js/src/'+m['file']
    subprocess.run("git -C /repo checkout -q -- .",shell=True)
    L=open(p).read().split('\n')
    L[m['line']-1:m.get('line2',m['line'])]=[m['text']]
    open(p,'w').write('\n'.join(L))
    r=subprocess.run('bash js/build.sh /verif/target/js/reader.mjs',shell=True,capture_output=True,text=True)
    if r.returncode: res='nobuild'
    else:
        res='SURVIVES'
        order=['C31','C26'] if m['file'] in('bindings.ts','raw_instructions.ts') else ['C26','C31']
        for q in order:
            try:
                r=subprocess.run(['timeout','60','/verif/target/release/aosim','check',q],capture_output=True,text=True,env=dict(os.environ,AOSIM_SECS='6',VERIF_SEED='1',VERIF_TIER='quick'))
                if r.returncode: res=f'{q} {r.returncode} '+r.stdout[:150].replace('\n',' '); break
            except Exception as e: res='?'+str(e)
    m['res']=res
    open('/tmp/plant/mut/js.log','a').write(json.dumps(m)+'\n')
