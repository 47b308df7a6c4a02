import re,json
R='/repo/js/src/'
files=['bindings.ts','event_queue.ts','market_state.ts','slab.ts','utils.ts','raw_instructions.ts']
OPS=[(r' < ',[' <= ',' > ']),(r' > ',[' >= ']),(r' === ',[' !== ']),(r' !== ',[' === ']),(r' == ',[' != ']),(r' \+ ',[' - ']),(r' - ',[' + ']),(r' \* ',[' + ']),(r' & ',[' | ']),(r' % ',[' + ']),
(r'\btrue\b',['false']),(r'\bfalse\b',['true']),(r'\? ',None),(r'"u64"',['"u32"']),(r'"u8"',['"u16"']),(r'"u32"',['"u16"']),(r'"u128"',['"u64"']),(r'Math\.min',['Math.max']),(r'Math\.floor',['Math.ceil']),
(r'(?<![\w."])(\d+)(?![\w."])',None),(r'\bbids\b',['asks']),(r'\basks\b',['bids']),(r'maker',['taker']),(r'instanceof InnerNode',['instanceof LeafNode']),(r'slabSize',['eventQueueSize']),(r'eventQueueSize',['slabSize'])]
out=[]
for f in files:
    L=open(R+f).read().split('\n')
    inc=False; lim=len(L)
    active = f!='raw_instructions.ts'
    for i,l in enumerate(L):
        s=l.strip()
        if f=='raw_instructions.ts':
            if s.startswith('export class'): active='createMarketInstruction' in s
            if not active: continue
        if s.startswith('/*'): inc=True
        if inc:
            if '*/' in s: inc=False
            continue
        if not s or s.startswith(('//','*','import','export enum','export interface')): continue
        for pat,reps in OPS:
            for m in re.finditer(pat,l):
                if reps is None:
                    if 'd+' not in pat: continue
                    v=int(m.group(1)); rs=[str(v+1)]+([str(v-1)] if v else [])
                else: rs=reps
                for r in rs: out.append(dict(file=f,line=i+1,old=s,text=l[:m.start()]+r+l[m.end():]))
        if s.endswith(';') and re.match(r'(this\.|signers|txIns|return undefined|break|res\.|event\.|keys\.|raw|stack|minMax)',s): out.append(dict(file=f,line=i+1,old=s,text=''))
        if re.match(r'^\[".*\],$',s) and i+1<len(L) and L[i+1].strip().startswith('["'):
            out.append(dict(file=f,line=i+1,line2=i+2,old=s,text=L[i+1]+'\n'+l))
for k,m in enumerate(out): m['id']=k
json.dump(out,open('/tmp/plant/mut/jsmutants.json','w'))
print(len(out))
