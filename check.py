#!/usr/bin/env python3
"""
check.py PROPERTY [--thorough]

Decides one property of /repo's current working tree.

1. The verifier (vf.engine.run) reads the functions of /repo which the
   property depends on, makes the obligations of their contracts, and
   discharges them.
2. The contracts are also executed on concrete inputs against the real code
   (vf.harness). This is how the failing input for an obligation which isn't
   discharged is looked for, and the bounded stand-in for what the verifier
   can't reach.

Exits 0 if the property held on everything explored, 1 with a VIOLATION line
if not, 2 if the contracts couldn't be run at all.
"""
import json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
ENGINE_PY = '/opt/veriftools/pyvenv/bin/python'
REPO_PY = '/opt/venv/bin/python'
REPO = os.environ.get('VF_REPO', '/repo')

# harness scales which take up to half a minute
SCALE = {'C17': 60, 'C15': 70, 'C14': 60}
DEFAULT_SCALE = 120


def env(budget):
    e = dict(os.environ)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONHASHSEED'] = '0'
    e['VF_BUDGET'] = str(budget)
    e['VF_REPO'] = REPO
    return e


def start(cmd, budget):
    return subprocess.Popen(cmd, cwd=HERE, env=env(budget), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


def finish(p, timeout):
    """the last line of the process's output, as JSON; or None if it didn't finish"""
    try:
        out, err = p.communicate(timeout=max(1, timeout))
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None
    lines = [l for l in out.splitlines() if l.startswith('{')]
    if not lines:
        return {'fatal': f'no answer (exit {p.returncode}): {err[-800:]}'}
    return json.loads(lines[-1])


def harness_cmd(prop, seed, scale):
    return [REPO_PY, '-m', 'vf.harness.runner', prop, str(seed), str(scale)]


def known(prop):
    result = []
    path = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith(f'finding: property={prop} '):
                result.append(line.strip()[len('finding: '):])
    return result


def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    thorough = tier == 'thorough'
    scale = SCALE.get(prop, DEFAULT_SCALE) * (10 if thorough else 1)
    hbudget = 1500 if thorough else 70
    ebudget = 1200 if thorough else 400

    manifest = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    level = next((c['level'] for c in manifest['checks'] if c['property'] == prop), 'other')

    hp = start(harness_cmd(prop, seed, scale), hbudget)
    ecmd = [ENGINE_PY, '-m', 'vf.engine.run', prop, tier]
    ep = start(ecmd, ebudget)
    harness = finish(hp, hbudget+120)
    engine = finish(ep, ebudget+120-(time.time()-t0))
    if engine is None:
        engine = {'obligations': [], 'goals': [], 'problems': ['the verifier ran out of time'], 'timeout': True}
    if 'fatal' in engine:
        print(f'{prop}: the verifier failed: {engine["fatal"]}')
        engine.setdefault('goals', [])
        engine['broken'] = True

    violations = []
    hang = harness is None
    if hang:
        harness = {'violations': [], 'errors': [], 'evaluations': 0, 'checks': 0, 'distinct': 0, 'samples': [], 'by_case': {}}
        violations.append({'kind': 'hang', 'message': 'running the contracts on concrete inputs did not finish'})
    if 'fatal' in harness:
        print(f'{prop}: the contracts could not be run: {harness["fatal"]}')
        sys.exit(2)

    obligations = [(g['name'], o) for g in engine.get('goals', []) for o in g['obligations']]
    refuted = [(g, o) for g, o in obligations if o['status'] == 'refuted']
    unknown = [(g, o) for g, o in obligations if o['status'] == 'unknown']
    proved = [(g, o) for g, o in obligations if o['status'] == 'proved']
    undecided_goals = [g for g in engine.get('goals', []) if g['problems']]

    concrete = harness['violations'] + harness['errors']
    extra = 0
    if (refuted or unknown or undecided_goals or engine.get('timeout')) and not concrete:
        # look harder for an input which shows it, or stand in for what wasn't decided
        for s in range(1, 4 if refuted else 3):
            if time.time()-t0 > (480 if not thorough else 4000):
                break
            h2 = finish(start(harness_cmd(prop, seed+1000*s, scale*(4 if refuted else 2)), 90), 150)
            if h2 and 'fatal' not in h2:
                extra += h2['evaluations']
                harness['evaluations'] += h2['evaluations']
                harness['checks'] += h2['checks']
                harness['distinct'] += h2['distinct']
                concrete = h2['violations'] + h2['errors']
                if concrete:
                    break

    replay = None
    suffix = ''
    if concrete or refuted or hang:
        os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
        replay = os.path.join(HERE, 'evidence', 'replays', f'{prop}.json')
        rec = {'property': prop, 'how': f'python3 {HERE}/replay.py {replay}'}
        if refuted:
            rec['failed_obligations'] = [{'goal': g, **o} for g, o in refuted]
        if concrete:
            rec['failing_inputs'] = concrete
        elif hang:
            rec['hang'] = True
        else:
            suffix = ' no-failing-input-found'
        with open(replay, 'w') as f:
            json.dump(rec, f, indent=1)

    goals = engine.get('goals', [])
    trusted = sorted(set(a for g in goals for a in g.get('assumptions', [])) | set(engine.get('assumptions', [])))
    coverage = {
        'obligations': len(obligations),
        'discharged': len(proved),
        'checker_cmd': ' '.join(ecmd),
        'trusted_base': engine.get('trusted_base', []),
        'back_end': engine.get('back_end', ''),
        'solver_time_s': round(sum(g.get('solver_time', 0) for g in goals), 2),
        'solver_calls': sum(g.get('solver_calls', 0) for g in goals),
        'paths': sum(g.get('paths', 0) for g in goals),
        'functions_under_contract': engine.get('under_contract', []),
        'functions_interpreted': sorted(set(f for g in goals for f in g.get('functions', []))),
        'contracts_used_at_calls': sorted(set(f for g in goals for f in g.get('contracts_used', []))),
        'library_models_used': sorted(set(f for g in goals for f in g.get('models_used', []))),
        'goals': [{k: g[k] for k in ('name', 'statement', 'paths', 'wall', 'problems') if k in g}
                  | {'obligations': len(g['obligations']), 'proved': sum(o['status'] == 'proved' for o in g['obligations'])}
                  for g in goals],
        'not_discharged': [{'goal': g, 'obligation': o['name'], 'status': o['status']} for g, o in refuted+unknown],
        'outside_reach_bounded_instead': engine.get('bounded', []) + [f'{g["name"]}: {p}' for g in undecided_goals for p in g['problems']],
        'evaluations': harness['evaluations'],
        'distinct_nontrivial': harness['distinct'],
        'rule': 'bounded part: contracts executed on the real code; cases drawn from VERIF_SEED; distinct by the text of the operations and document',
        'cases': harness['by_case'],
        'contract_evaluations': harness['checks'],
        'samples': harness['samples'],
    }
    coverage['explanation'] = (
        f'{len(proved)} of {len(obligations)} obligations discharged for all inputs; '
        f'{harness["evaluations"]} concrete executions of the contracts (bounded, not counted as proved)')
    ev_level = level
    if level == 'proof' and (len(proved) != len(obligations) or not obligations or undecided_goals):
        ev_level = 'other'
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': ev_level, 'coverage': coverage,
        'assumptions': trusted, 'wall_s': round(time.time()-t0, 2),
        'violations': len(concrete) + len(refuted) + (1 if hang else 0),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    for k in known(prop):
        print('KNOWN-FINDING: ' + k)
    for g, o in refuted[:5]:
        print(f'{prop}: obligation not discharged: {g}: {o["name"]}')
    for g, o in unknown[:5]:
        print(f'{prop}: obligation undecided: {g}: {o["name"]}')
    for g in undecided_goals:
        print(f'{prop}: outside reach: {g["name"]}: {g["problems"][0]}')
    for v in concrete[:3]:
        print(f'{prop}: failing input: {v["case"]}#{v["index"]}: {v["message"]}')
    print(f'{prop}: {len(proved)}/{len(obligations)} obligations discharged, '
          f'{harness["evaluations"]} concrete executions, {time.time()-t0:.1f} s')
    if replay:
        print(f'VIOLATION property={prop} replay={replay}{suffix}')
        sys.exit(1)
    # if the verifier could say nothing about this tree, what was said is what the contracts did on concrete inputs
    sys.exit(0)


main()
