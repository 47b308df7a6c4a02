#!/usr/bin/env python3
"""mk.py DEFS: turns planted-bug definitions (a Python file with a list BUGS) into /verif/seeded/<id>/.
Scratch copy of the repository: /tmp/plant/repo."""
import json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
ns = {}
exec(open(sys.argv[1]).read(), ns)
R = '/tmp/plant/repo'
for b in ns['BUGS']:
    subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])
    for f, old, new in b['edits']:
        p = os.path.join(R, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            print(b['id'], f, 'matches', n, 'times:', old[:60]); sys.exit(1)
        open(p, 'w').write(s.replace(old, new))
    d = os.path.join('/verif/seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(['git', '-C', R, 'diff'])
    open(d + '/patch.diff', 'wb').write(diff)
    subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])
    if 'demo' in b:
        shutil.copy(here + '/demo.sh', d + '/demo.sh')
        shutil.copy(here + '/h.rs', d + '/h.rs')
        open(d + '/demo.rs', 'w').write('mod h;\nuse asset_agnostic_orderbook::state::{SelfTradeBehavior, Side};\nuse h::*;\n' + b['demo'])
    if 'js' in b:
        shutil.copy(here + '/jsdemo.sh', d + '/demo.sh')
        for x in ['bn.mjs', 'borsh.mjs', 'web3.mjs']:
            shutil.copy(here + '/../../js/shim/' + x, d + '/' + x)
        open(d + '/demo.ts', 'w').write(b['js'])
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print('made', b['id'])
