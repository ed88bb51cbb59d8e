#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] : decide one property of /repo's current tree."""
import sys, os, time, json, argparse, subprocess, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from concurrent.futures import ThreadPoolExecutor
from rvc import sched, battery, props, frontend
V = os.path.dirname(os.path.abspath(__file__))

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('-v', action='store_true')
    a = ap.parse_args(); seed = int(os.environ.get('VERIF_SEED', '1')); t0 = time.time(); tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    P = props.PROPS[a.prop]; os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    budget = t0 + (560 if tier == 'quick' else 3000)
    res = []; fatal = None; withdrawn = {}
    log = (lambda r: print('  %-60s %6.1fs %s' % (r['job'], r['wall'], r.get('error') or '%d obligations' % len(r.get('obligs', ()))), flush=True)) if a.v else None
    # 1. deductive verification
    try:
        ctx = {}
        for stage in P['stages'](tier, ctx, sorted(P['tags'])):
            rs = sched.run_jobs(stage, deadline=budget, on_result=log); res += rs
            ctx['last'] = rs
        withdrawn = ctx.get('withdrawn', {})
    except frontend.FrontendError as e: fatal = 'front end: ' + str(e)[:1500]
    tags = P['tags']
    obs = []; bad = []; unk = []
    for r in res:
        if r.get('error'): unk.append('%s: %s' % (r['job'], r['error'])); sys.stderr.write((r.get('trace') or '') + '\n') if r.get('trace') else None
        if not r.get('error') and r.get('vac') == 'unsat' : unk.append('%s: no return state reachable (vacuous)' % r['job'])
        for o in r.get('obligs', ()):
            if not (set(o['tags']) & tags): continue
            obs.append(o)
            if o['status'] == 'failed' and not r.get('tainted'): bad.append(dict(o, job=r['job']))
            elif o['status'] != 'proved': unk.append('%s: %s: %s at %s' % (r['job'], o['status'], o['name'], o['where']))
    if fatal: unk.append(fatal)
    # 2. concrete battery (bounded): validation on every run, replay of failed obligations
    runs = [battery.Run(*x[:2], **(x[2] if len(x) > 2 else {})) for x in P['battery'](seed, 1 if tier == 'quick' else 10)]
    if bad or unk: runs += [battery.Run(*x[:2], **(x[2] if len(x) > 2 else {})) for k in range(1, 9) for x in P['battery'](seed + 1000 * k, 4)]
    confirmed = []; berr = []; cases = 0
    def go(r):
        try: return r, r.go()
        except battery.BuildError as e: return r, (None, 'build: ' + str(e)[:1500])
    if runs:
        try: battery.build(runs[0].prog)
        except battery.BuildError: pass
        with ThreadPoolExecutor(8) as tp:
            for r, (f, txt) in tp.map(go, runs):
                cases += getattr(r, 'cases', 0)
                if f: confirmed.append((r.cmd(), txt))
                elif f is None: berr.append('%s: %s' % (r.cmd(), txt))
    # known findings
    known = props.known(a.prop)
    for k in known: print('KNOWN-FINDING: property=%s %s' % (a.prop, k))
    # 3. verdict
    viol = bool(confirmed or bad); rc = 0
    if viol:
        rc = 1; rp = os.path.join(V, 'evidence', 'replay-%s.txt' % a.prop)
        with open(rp, 'w') as f:
            f.write('property %s, tree %s\n' % (a.prop, frontend.REPO))
            if confirmed:
                f.write('\n== confirmed on the running code ==\n')
                for c, t in confirmed: f.write('battery command (built from the sources in %s by rvc/battery.py): %s\n%s\n' % (frontend.REPO, c, t))
            f.write('\n== failed obligations ==\n')
            seen = set()
            for o in bad:
                k = (o['name'], o['where'])
                if k in seen: continue
                seen.add(k); f.write('%s\n  in %s\n  at %s\n  solver model: %s\n' % (o['name'], o['func'], o['where'], o['model']))
            if not confirmed: f.write('\nNo failing input was found by the concrete battery.\n')
        for o in bad[:5]: print('failed obligation: %s | %s | %s' % (o['name'], o['func'], o['where']))
        for c, t in confirmed[:3]: print('confirmed: %s' % t.splitlines()[0])
        print('VIOLATION property=%s replay=%s%s' % (a.prop, rp, '' if confirmed else ' no-failing-input-found'))
    for u in unk[:8]: print('undecided: ' + u[:400])
    for u in berr[:4]: print('battery: ' + u[:400])
    ndis = sum(1 for o in obs if o['status'] == 'proved')
    complete = not unk and not bad and ndis == len(obs) and obs
    if not viol and not complete:
        print('property %s: %d of %d obligations discharged; the rest of this run is bounded (concrete battery) only' % (a.prop, ndis, len(obs)))
        if not runs or (berr and len(berr) >= len(runs)): print('no answer'); rc = 2
    level = 'proof' if complete or viol else 'other'
    ev = dict(property=a.prop, tier=tier, seed=seed, level=P.get('level', 'proof') if level == 'proof' else level,
              coverage=dict(obligations=len(obs), discharged=ndis, checker_cmd='python3-vt check.py %s --tier %s' % (a.prop, tier),
                            trusted_base=P['trusted'],
                            explanation=json.dumps(dict(
                                functions_under_contract=P['functions'], functions_inlined=sorted({f for r in res for f in r.get('inlined', ())}),
                                contracts_used_at_calls=sorted({f for r in res for f in r.get('contracts', ())}),
                                assumed_external_contracts=sorted({f for r in res for f in r.get('models', ())}),
                                contracts_withdrawn=withdrawn,
                                loops_cut=sorted({'%s/%s %s' % (l[0], l[1], l[2]) for r in res for l in r.get('loops', ())}),
                                jobs=len(res), jobs_with_reachable_return=sum(1 for r in res if r.get('vac') == 'sat'),
                                solver_queries=sum(r.get('queries', 0) for r in res), solver_seconds=round(sum(r.get('solver_s', 0) for r in res), 1),
                                back_ends={'z3': sum(r.get('queries', 0) for r in res), 'cvc5 (after z3 gave up)': sum(r.get('cvc5', 0) for r in res)},
                                undecided=unk[:40], bounded_battery=[r.cmd() for r in runs][:40], battery_cases=cases, battery_errors=berr[:5],
                                bounded_parts=P.get('bounded', []), failed=[o['name'] for o in bad][:20]))),
              assumptions=P['assumptions'], wall_s=round(time.time() - t0, 2), violations=(len(confirmed) or len(bad)) if viol else 0)
    if not complete and not viol: ev['coverage']['rule'] = 'undecided obligations are covered only by the concrete battery (bounded)'
    json.dump(ev, open(os.path.join(V, 'evidence', a.prop + '.json'), 'w'), indent=1)
    if not viol: print('property %s: %d/%d obligations discharged, %d battery runs clean, %.0f s' % (a.prop, ndis, len(obs), len(runs) - len(berr), time.time() - t0))
    sys.exit(rc)
main()
