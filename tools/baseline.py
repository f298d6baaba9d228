# baseline.py RESULT.json: the stable tests that did not pass
import json, sys
b = json.load(open('/opt/vp/BASELINE.json')); r = json.load(open(sys.argv[1])); p = set(r['passed'])
miss = [t for t in b['stable'] if t not in p]
print(len(b['stable']), 'stable,', len(miss), 'not passing'); [print(' ', m) for m in miss[:20]]
sys.exit(bool(miss))
