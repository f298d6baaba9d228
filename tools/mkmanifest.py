#!/usr/bin/env python3
# writes MANIFEST.json from configs.py and properties.jsonl
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, here)
from configs import PROPERTIES
NA = json.load(open(here + '/tools/not_applicable.json'))
checks, na = [], []
for l in open(here + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    if i in PROPERTIES:
        c = PROPERTIES[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
            'technique': 'symbolic execution of the LLVM IR of the real headers, path conditions and assertions decided by Z3 (QF_BV)',
            'level': 'model_checking',
            'level_note': 'Every path of the real code within the bounds is executed symbolically and the assertions decided by the solver for all values; bounds: %s. Outside: %s. Trusts clang\'s IR, Z3, the engine (validated by replaying explored paths natively) and its models of libc and the C++ runtime.' % (c['bounds'], c['outside'])})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check yet')})
json.dump({'version': 1, 'setup_cmd': 'engine/build.sh build', 'checks': checks, 'not_applicable': na,
  'notes': 'See DESIGN.md. No hooks are needed in /repo.'}, open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
