#!/usr/bin/env python3
# Generates one-line mutants of the program's non-test source. Output: mutants.jsonl
import re,json,random,sys
import os
R=sys.argv[1]
files=["entrypoint.rs","instruction.rs","lib.rs","processor.rs","state.rs","utils.rs"]+["processor/"+f for f in("cancel_order.rs","close_market.rs","consume_events.rs","create_market.rs","mass_cancel_orders.rs","new_order.rs")]+["state/"+f for f in("critbit.rs","event_queue.rs","market_state.rs","orderbook.rs")]
out=[]
OPS=[(r' < ',[' <= ',' > ']),(r' <= ',[' < ']),(r' > ',[' >= ',' < ']),(r' >= ',[' > ']),(r' == ',[' != ']),(r' != ',[' == ']),
 (r' \+ ',[' - ']),(r' - ',[' + ']),(r' \* ',[' + ']),(r' \+= ',[' -= ']),(r' -= ',[' += ']),(r' & ',[' | ']),(r' \| ',[' & ']),(r' \^ ',[' & ']),
 (r' && ',[' || ']),(r' \|\| ',[' && ']),(r'\btrue\b',['false']),(r'\bfalse\b',['true']),(r'\bmin\(',['max(']),(r'\bmax\(',['min(']),
 (r'Side::Bid\b',['Side::Ask']),(r'Side::Ask\b',['Side::Bid']),
 (r'AccountTag::Bids\b',['AccountTag::Asks']),(r'AccountTag::Asks\b',['AccountTag::Bids']),(r'\.asks\b',['.bids']),(r'\.bids\b',['.asks']),
 (r'fp32_mul_ceil',['fp32_mul_floor']),(r'fp32_mul_floor',['fp32_mul_ceil']),
 (r'!(?=[a-z(])',['']),(r'\bis_none\(\)',['is_some()']),(r'\bis_some\(\)',['is_none()']),
 (r'(?<![\w.])(\d+)(?![\w.]|\s*\.\.)',None),
 (r'u64::MAX',['0']),(r'find_min\b',['find_max']),(r'find_max\b',['find_min']),(r'\.rev\(\)',['']),
 (r'saturating_sub',['wrapping_sub']),(r'wrapping_sub',['saturating_sub']),(r'saturating_add',['wrapping_add']),
 (r'wrapping_add\((.*?)\)',None),
]
for f in files:
    p=f"{R}/program/src/{f}"
    L=open(p).read().split('\n')
    depth_test=False
    n=len(L)
    # cut at #[cfg(test)] mod
    end=n
    skip=set()
    i=0
    while i<n:
        if L[i].strip()=='#[cfg(test)]':
            j=i+1
            ind=len(L[i])-len(L[i].lstrip())
            while j<n and not (L[j].rstrip() in (' '*ind+'}',) or (L[j].rstrip().endswith(';') and '{' not in L[j] and j==i+1)): j+=1
            skip.update(range(i,j+1)); i=j
        i+=1
    for i,l in enumerate(L):
        if i in skip: continue
        s=l.strip()
        if not s or s.startswith('//') or s.startswith('#') or s.startswith('use ') or 'msg!' in s or s.startswith('"') : continue
        code=l.split('//')[0]
        for pat,reps in OPS:
            for m in re.finditer(pat,code):
                if reps is None:
                    if not pat.startswith('(?<!'): continue
                    v=int(m.group(1))
                    rs=[str(v+1)]+([str(v-1)] if v>0 else [])
                else: rs=reps
                for r in rs:
                    if pat==r' < ' and ('<' in code and '>' in code and 'impl' in code): continue
                    new=l[:m.start()]+r+l[m.end():]
                    out.append(dict(file=f,line=i+1,old=s,new=new.strip(),text=new,kind=pat))
        # conditions
        m=re.match(r'^(\s*)((?:\} else )?if )(?!let)(.*) \{$',code)
        if m and i not in skip:
            for c in('true','false'):
                out.append(dict(file=f,line=i+1,old=s,new=f'if {c}',text=f'{m[1]}{m[2]}({m[3]}, {c}).1 {{',kind='if'))
        # delete statement
        if s.endswith(';') and not s.startswith(('let ','pub ','use ','return','type ','const ','}',')')) and s.count('(')==s.count(')') and s.count('{')==s.count('}'):
            out.append(dict(file=f,line=i+1,old=s,new='(deleted)',text='',kind='del'))
        # checks across lines: `check(...)?;` forms beginning at line
        if re.match(r'^(check_\w+|[\w.]+\()\s*\(?$',s) or re.match(r'^check_\w+\($',s):
            j=i
            while j<n and not L[j].strip().endswith(';'): j+=1
            if j-i<12:
                out.append(dict(file=f,line=i+1,line2=j+1,old=s,new='(deleted block)',text='',kind='delblock'))
        if re.search(r'\breturn (Err|Ok)\b.*;$',s):
            out.append(dict(file=f,line=i+1,old=s,new='(deleted return)',text='',kind='delret'))
        if s in('break;','continue;'):
            out.append(dict(file=f,line=i+1,old=s,new='swapped',text='continue;' if s=='break;' else 'break;',kind='brk'))
for k,m in enumerate(out): m['id']=k
json.dump(out,open('/tmp/plant/mut/mutants.json','w'),indent=0)
from collections import Counter
print(len(out),Counter(m['file'] for m in out))
