"""one.py PROP INDEX: runs one generated scenario and prints it, its violations and its history (development aid)"""
import json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import survey_boot
p = survey_boot.boot()
import harness
seed, idx = int(os.environ.get('VERIF_SEED', '1')), int(sys.argv[2])
s = harness.run_seed(seed, p.id, idx)
scn = p.gen(random.Random(s), idx)
rep = harness.run_scenario(p, scn, s, None, os.path.join(os.environ['VSIM_SCRATCH'], 'one'))
if rep['violations'] and os.environ.get('MIN'):
    key = harness.vkey(rep['violations'][int(os.environ['MIN']) - 1])
    scn, forced, best = harness.minimise(p, scn, s, rep['trace'], key, os.path.join(os.environ['VSIM_SCRATCH'], 'one'), 60)
    rep = best or rep
    print('trace', forced)
print(json.dumps(scn)[:6000])
for h in rep.get('history_tail') or ():
    print('   ', str(h)[:int(os.environ.get('W', '220'))])
print({k: v for k, v in rep.items() if k not in ('history', 'trace', 'violations')} if os.environ.get('V') else rep['status'], rep.get('error', ''))
for v in rep['violations']:
    print('**', v['cls'], v.get('sig'), v['msg'])
