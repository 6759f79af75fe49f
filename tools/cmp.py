import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))
o = json.load(open(sys.argv[1]))
bp = {x for x in (b.get('passed') or b.get('stable') or b.get('tests')) if 'test_doctests' not in x}
m = sorted(bp - set(o['passed']))
print('missing', len(m), m[:5])
