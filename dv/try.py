import sys, importlib, time
sys.setrecursionlimit(100000)
from .frontend import load_program
from .driver import run_targets, targets_of
p = load_program()
m = importlib.import_module('dv.props.' + sys.argv[1].lower())
ts = targets_of(m)
if len(sys.argv) > 2:
    ts = [t for t in ts if any(a in t.name for a in sys.argv[2:])]
t0 = time.time()
for r in run_targets(p, ts, 'quick'):
    print(f"== {r['target']}: {sum(o['status']=='proved' for o in r['obligs'])}/{len(r['obligs'])} proved, {r.get('trivial')} trivial, vac {r.get('vacuous')}/{r.get('reach')}, loops {len(r.get('loops',[]))}, dropped {r.get('dropped')}, rounds {r.get('rounds')}, {r['wall']:.1f}s", r['error'] or '')
    for o in r['obligs']:
        if o['status'] != 'proved' or o['time'] > 5:
            print('   ', o['status'], o['kind'], o['desc'], o['func'], o['line'], f"{o['time']:.1f}s", o['backend'], o['model'])
print(f'{time.time()-t0:.1f}s')
