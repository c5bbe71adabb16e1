#!/usr/bin/env python3
"""check.py <property> [--thorough]: decides one property on /repo's working tree."""
import hashlib
import json
import os
import sys
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import runner  # noqa: E402
from props import PROPS  # noqa: E402


def main():
    prop = sys.argv[1]
    thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    cfg = PROPS[prop]
    t0 = time.time()
    units = {}
    rep = [None]

    def do_unit(u):
        try:
            units[u] = runner.run_unit(u, extra=cfg.get('flags', []))
        except Exception as e:
            x = runner.UnitResult()
            x.broken = 'internal: %s' % e
            x.raw = traceback.format_exc()
            units[u] = x

    def do_rep():
        try:
            a, p = cfg['replay']
            secs = cfg.get('thorough_s', 120) if thorough else cfg.get('quick_s', 20)
            rep[0] = runner.run_replay(a, p, seed, secs, runs=4 if thorough else 1)
        except Exception as e:
            rep[0] = runner.ReplayResult()
            rep[0].build_error = 'internal: %s' % traceback.format_exc()
    ths = [threading.Thread(target=do_unit, args=(u,)) for u, _ in cfg['units']]
    if cfg.get('replay'):
        ths.append(threading.Thread(target=do_rep))
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    rr = rep[0]

    # ---- what failed
    proof_fail = []
    for u, fns in cfg['units']:
        r = units[u]
        if r.broken:
            proof_fail.append((u, None, r.broken, r.raw))
        for f in r.fails:
            if fns is None or f['func'] is None or f['func'] in fns:
                proof_fail.append((u, f['func'], f['message'], f['text']))
        for f in r.vacuous:
            if fns is None or f in fns:
                proof_fail.append((u, f, 'vacuous contract: its precondition is contradictory', ''))
    concrete = []
    if rr and rr.hang:
        concrete.append(dict(key='hang', case='seed %d' % seed, what='the checked code did not return'))
    if rr and rr.crash:
        concrete.append(dict(key='crash', case='seed %d' % seed, what=rr.crash))
    if rr and rr.data:
        concrete += rr.data['violations']
    known = [(k, t) for p, k, t in runner.load_known() if p == prop]
    new = [v for v in concrete if v['key'] not in [k for k, _ in known]]

    # ---- evidence
    all_f = []
    ob = di = 0
    for u, fns in cfg['units']:
        r = units[u]
        ob += r.obligations
        di += r.discharged
        for f in r.funcs:
            if fns is None or f['name'] in fns:
                all_f.append('%s#%s' % (f['file'], f['name']))
    meta = {}
    mp = os.path.join(VERIF, 'assumptions.json')
    if os.path.exists(mp):
        meta = json.load(open(mp))
    assumptions = list(meta.get('common', []))
    for u, _ in cfg['units']:
        assumptions += meta.get('units', {}).get(u, [])
    assumptions += meta.get('properties', {}).get(prop, [])
    trusted = list(meta.get('trusted_base', ['Verus and its SMT solver']))
    cov = dict(obligations=ob, discharged=di,
               checker_cmd='; '.join(units[u].cmd for u, _ in cfg['units']),
               trusted_base=trusted,
               functions_under_contract=sorted(set(all_f)),
               units={u: dict(obligations=units[u].obligations, discharged=units[u].discharged, solver_ms=units[u].smt_ms,
                              wall_s=round(units[u].wall, 2), slowest=units[u].slow, extraction_notes=units[u].notes,
                              rewrites=units[u].rewrites, source_hashes=units[u].shas,
                              broken=units[u].broken) for u, _ in cfg['units']},
               backend='Verus ' + 'with Z3', vacuity='assert(false) at the entry of every function under contract fails' )
    if rr:
        d = rr.data or {}
        cov.update(evaluations=d.get('cases', 0), distinct_nontrivial=d.get('distinct', 0),
                   rule='concrete checks of the compiled code: seeded random histories and small exhaustive families, '
                        'distinct by the written-out case; they only add failing inputs, they never count as proof',
                   samples=d.get('samples', []), families=d.get('families', {}), replay_build_s=round(rr.build_s, 1),
                   replay_built=rr.built, replay_build_error=rr.build_error[:1500])
    ev = dict(property=prop, tier='thorough' if thorough else 'quick', seed=seed, level=cfg.get('level', 'proof'), coverage=cov,
              assumptions=assumptions, violations=len(new) + (1 if proof_fail and not new else 0))
    edir = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(edir, 'replay'), exist_ok=True)

    def finish(code):
        ev['wall_s'] = round(time.time() - t0, 2)
        json.dump(ev, open(os.path.join(edir, prop + '.json'), 'w'), indent=1)
        sys.stdout.flush()
        sys.exit(code)

    def proof_text():
        o = ''
        for u, f, m, tx in proof_fail:
            o += '--- unit %s, function %s: %s\n%s\n' % (u, f, m, tx)
        return o
    for k, t in known:
        if any(v['key'] == k for v in concrete):
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, t))
        else:
            # the finding is listed whether or not this run reached it
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, t))
    if new:
        for i, v in enumerate(new[:5]):
            path = os.path.join(edir, 'replay', '%s-%d.txt' % (prop, i))
            with open(path, 'w') as f:
                f.write('property %s\nclause %s\nobserved: %s\nseed %d\n\ncase:\n%s\n\n' % (prop, v['key'], v['what'], seed, v['case']))
                f.write('rerun: cd %s/replay/%s && cargo run --offline --features %s -- %s %d %s\n\n' % (VERIF, cfg['replay'][0], prop, prop, seed, cfg.get('quick_s', 20)))
                f.write('failed obligations:\n' + (proof_text() or 'none\n'))
            print('%s: %s' % (v['key'], v['what'][:600]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        finish(1)
    if proof_fail:
        path = os.path.join(edir, 'replay', '%s-proof.txt' % prop)
        with open(path, 'w') as f:
            f.write('property %s\nfailed obligations (no failing input found by the concrete checks):\n\n%s' % (prop, proof_text()))
        for u, fn, m, _ in proof_fail[:8]:
            print('obligation failed: unit %s, %s: %s' % (u, fn, m[:400]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        finish(1)
    if rr and not rr.built:
        print('note: the concrete checks did not build: %s' % rr.build_error[:300])
    print('OK property=%s obligations=%d discharged=%d functions=%d cases=%d' % (prop, ob, di, len(set(all_f)), (rr.data or {}).get('cases', 0) if rr else 0))
    finish(0)


try:
    main()
except SystemExit:
    raise
except Exception:
    traceback.print_exc()
    sys.exit(2)
