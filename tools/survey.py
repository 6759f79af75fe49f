"""survey.py PROP RUNS WALL: counts violations by (class, signature) with the first run index of each (development aid)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import survey_boot
p = survey_boot.boot()
import harness
seen = {}
n = [0, 0, 0]
def rep(r):
    n[0] += 1
    n[1] += r['status'] != 'ok'
    n[2] += bool(r['stats'].get('nontrivial'))
    if r['status'] != 'ok' and n[1] == 1:
        print(r.get('index'), r['status'], r.get('error'))
    for v in r['violations']:
        k = (v['cls'], v.get('sig'))
        e = seen.setdefault(k, [0, r['index'], v['msg']])
        e[0] += 1
        if r['index'] < e[1]:
            e[1:] = [r['index'], v['msg']]
reports = harness.search(p, int(os.environ.get('VERIF_SEED', '1')), int(sys.argv[2]), 8, float(sys.argv[3]), os.environ['VSIM_SCRATCH'], on_report=rep, recheck=25)
mism = [r['index'] for r in reports if r.get('rechecked') is False]
print(n, 'runs/undecided/nontrivial; determinism mismatches', mism[:10])
tot = {}
for r in reports:
    for kk in ('faults', 'probes'):
        for k, x in r['stats'].get(kk, {}).items():
            tot[k] = tot.get(k, 0) + x
if os.environ.get('V'):
    print(tot)
for k, e in sorted(seen.items(), key=lambda x: -x[1][0]):
    print(e[0], 'run', e[1], k, e[2][:int(os.environ.get("W","400"))])
