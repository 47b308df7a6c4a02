import json,collections
c=collections.Counter();rs=[json.loads(l) for l in open('/tmp/plant/mut/results.jsonl')]
for r in rs:
    if r['res']=='testkilled' and r['msg'].strip() in('','test result: FAILED. 9 passed; 1 failed; 0 ignored; 0 measured; 0 filtered out; finished in') or r['res']=='testkilled' and '::' not in r['msg'] : r['res']='SURVIVES'
    c[r['res']]+=1
print(c, sum(r['secs'] for r in rs)/len(rs))
import sys
for r in rs:
    if r['res'] in('SURVIVES','testkilled') or (r['res']=='crash' and len(sys.argv)>1): print(r['id'],r['res'],r['file'],r['line'],'|',r['old'][:90],'=>',r['new'][:90],'|',r['msg'][:150] if r['res']!='SURVIVES' else '')
