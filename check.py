#!/usr/bin/env python3-vt
"""check.py C16 — decides one property on /repo's current tree (see DESIGN.md)."""
import hashlib, importlib, json, os, subprocess, sys, time, traceback
sys.setrecursionlimit(100000)
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
PROP = sys.argv[1].upper()
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
OUT = VERIF + '/out'
T0 = time.time()

from dv import frontend, driver, replay  # noqa: E402

BASE_TRUST = [
    'the front end (clang 18 AST to JSON) and the verification condition generator in /verif/dv',
    'the SMT solvers z3 and cvc5 (an obligation counts as discharged when one of them answers unsat for its negation)',
    'the assumed contracts of the C++ standard library in dv/stl.py (vector, map, set, hash, algorithms, smart pointers, locks)',
    'hash functions are modelled as functions of the hashed value only; double arithmetic as exact reals with explicit rounding-error terms where a property depends on it',
]


def known():
    p = VERIF + '/KNOWN_FINDINGS'
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=' + PROP + ' '):
                out.append(l.split(' ', 2)[2])
    return out


def write_replay(kind, d):
    os.makedirs(OUT, exist_ok=True)
    p = f'{OUT}/replay-{PROP}-{kind}.json'
    d = dict(d, property=PROP, tier=TIER, seed=SEED, repo=frontend.REPO)
    json.dump(d, open(p, 'w'), indent=1, default=str)
    return p


def main():
    mod = importlib.import_module('dv.props.' + PROP.lower())
    targets = driver.targets_of(mod)
    pytargets = list(getattr(mod, 'PY', []))
    standins = list(getattr(mod, 'STANDINS', []))
    use_harness = getattr(mod, 'HARNESS', True)
    h = replay.Harness(PROP) if use_harness else None
    notes = []
    results = []
    try:
        if targets:
            try:
                prog = frontend.load_program()
                results = driver.run_targets(prog, targets, TIER)
            except Exception as e:
                notes.append(f'extraction failed: {e}'[:2000])
        # a second, longer attempt for what stayed open
        again = [t for t in targets for r in results if r['target'] == t.name and not r['error'] and any(o['status'] == 'unknown' for o in r['obligs'])]
        if again and time.time() - T0 < 300:
            for t in again:
                t.budget *= 3
            new = {r['target']: r for r in driver.run_targets(prog, again, TIER)}
            results = [new.get(r['target'], r) for r in results]
        obl = [o for r in results for o in r['obligs']]
        open_ = [o for o in obl if o['status'] != 'proved']
        out_of_reach = [(r['target'], r['error']) for r in results if r['error']]
        vac = [r['target'] for r in results if not r['error'] and r.get('reach') and r['vacuous'] == r['reach']]
        for v in vac:
            out_of_reach.append((v, 'its assumptions are contradictory'))
        trivial = sum(r.get('trivial') or 0 for r in results)

        violations = []      # (kind, replay dict, has input)
        stand, pyfuncs = [], set()
        # the Python layer
        for name, fn in pytargets:
            try:
                r = fn(SEED, TIER)
            except Exception as e:
                r = {'error': f'{type(e).__name__}: {e}', 'trace': traceback.format_exc()[-2000:]}
            obl += r.get('obligs', [])
            pyfuncs |= set(r.get('inlined') or [])
            open_ += [o for o in r.get('obligs', []) if o['status'] != 'proved' and not r.get('failure')]
            if r.get('error'):
                out_of_reach.append((name, r['error']))
            if r.get('bounded'):
                stand.append(dict(r['bounded'], name=name))
            if r.get('failure'):
                violations.append(('python', dict(failed_obligation=name, **r['failure']), True))
        # bounded search: validation when everything is discharged, stand-in or replay when not
        hst = None
        if h:
            if TIER == 'thorough':
                secs, procs = getattr(mod, 'THOROUGH_SECS', 240), 8
            elif open_ or out_of_reach or notes:
                secs, procs = 60, 8
            elif standins:
                secs, procs = getattr(mod, 'SECS', 40), 8
            else:
                secs, procs = getattr(mod, 'SECS', 8), 4
            fail, hst = h.run(SEED, secs, procs=procs)
            if fail:
                cmd = f"cd {VERIF} && python3-vt -m dv.replay --case {fail['case']} --seed {fail['seed']} {PROP}"
                violations.append(('input', dict(failed_obligation=[brief(o) for o in open_[:5]] or 'bounded stand-in: ' + fail['name'], verifier=[{k: o.get(k) for k in ('desc', 'func', 'line', 'status', 'backend', 'model', 'goal')} for o in open_[:5]],
                                                 what=fail['what'], failing_input=fail['input'], harness_case=fail['case'], harness_seed=fail['seed'], harness=fail['name'], reproduce=cmd, log=fail['log'][-3000:]), True))
            elif hst.get('error'):
                notes.append('bounded harness: ' + hst['error'])
        if open_ and not any(v[2] for v in violations):
            violations.append(('proof', dict(failed_obligation=[brief(o) for o in open_[:20]], verifier=open_[:20],
                                             note='the verifier does not accept these obligations; the bounded search found no failing input', harness=hst), False))

        backends = {}
        for o in obl:
            if o['status'] == 'proved':
                backends[o['backend'] or 'simplifier'] = backends.get(o['backend'] or 'simplifier', 0) + 1
        if trivial:
            backends['simplifier'] = backends.get('simplifier', 0) + trivial
        funcs = sorted({f for r in results for f in (r.get('inlined') or []) + (r.get('contracts') or [])} | pyfuncs)
        assumed = sorted({a for r in results for a in (r.get('assumed') or [])})
        cov = dict(obligations=len(obl) + trivial, discharged=sum(o['status'] == 'proved' for o in obl) + trivial,
                   checker_cmd=f'python3-vt check.py {PROP}', trusted_base=BASE_TRUST + assumed,
                   backends=backends, solver_seconds=round(sum(o.get('time') or 0 for o in obl), 2), functions_under_contract=funcs,
                   targets=[dict(target=r['target'], obligations=len(r['obligs']), discharged=sum(o['status'] == 'proved' for o in r['obligs']), wall_s=round(r.get('wall', 0), 2), loops=r.get('loops'), rounds=r.get('rounds'), error=r['error'], paths_reached=r.get('reach'), paths_contradictory=r.get('vacuous')) for r in results],
                   obligation_samples=[brief(o) for o in obl[:6]],
                   open_obligations=[brief(o) for o in open_[:20]],
                   out_of_reach=[dict(target=a, reason=b) for a, b in out_of_reach],
                   bounded=[dict(what=s) for s in standins] + stand)
        if hst:
            cov['evaluations'] = hst.get('evaluations', 0)
            cov['distinct_nontrivial'] = hst.get('distinct', 0)
            cov['rule'] = 'cases of replay/*.cpp drawn from VERIF_SEED, run on the code compiled from /repo against an independent oracle; a case counts once per distinct written-out input with at least one meaningful question; bounded, not part of the proof'
            cov['samples'] = hst.get('samples', [])
        level = getattr(mod, 'LEVEL', 'proof')
        if level == 'other' or notes or out_of_reach:
            cov['explanation'] = getattr(mod, 'EXPLAIN', 'Contracts on the functions listed are discharged for all inputs; what is listed under bounded was only searched within the stated bound.') + ''.join(' NOTE: ' + n for n in notes)
            if out_of_reach and level == 'proof':
                level = 'other'
        ev = dict(property=PROP, tier=TIER, seed=SEED, level=level, coverage=cov,
                  assumptions=getattr(mod, 'ASSUMES', []) + assumed + [f'bounded stand-in: {s}' for s in standins] + [f'out of reach on this tree, bounded search only: {a}: {b}' for a, b in out_of_reach],
                  wall_s=round(time.time() - T0, 2), violations=len(violations))
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        json.dump(ev, open(f'{VERIF}/evidence/{PROP}.json', 'w'), indent=1, default=str)

        for k in known():
            print(f'KNOWN-FINDING: property={PROP} {k}')
        n_ok = cov['discharged']
        print(f"{PROP}: {n_ok}/{cov['obligations']} obligations discharged, {len(funcs)} functions, bounded cases {cov.get('evaluations', 0)}, {ev['wall_s']} s")
        for n in notes:
            print('note:', n[:500])
        for a, b in out_of_reach:
            print(f'out of reach: {a}: {b}'[:500])
        for o in open_[:10]:
            print('open:', brief(o))
        if violations:
            kind, d, inp = sorted(violations, key=lambda v: not v[2])[0]
            p = write_replay(kind, d)
            if inp:
                print(f"failing input: {d.get('what')} | {str(d.get('failing_input'))[:600]}")
            print(f'VIOLATION property={PROP} replay={p}' + ('' if inp else ' no-failing-input-found'))
            return 1
        return 0
    finally:
        if h:
            h.close()


def brief(o):
    return f"{o.get('target', '')}: {o['kind']}: {o['desc']} [{o.get('func')}:{o.get('line')}] {o['status']}" + (f" by {o['backend']}" if o.get('backend') else '')


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
