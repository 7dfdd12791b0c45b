"""
python -m vf.engine.run PROPERTY TIER [GOAL...]

Discharges the obligations of one property from the source in /repo, and
prints what happened as a line of JSON.
"""
import contextlib, gc, importlib, io, json, multiprocessing, os, sys, time, traceback

REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.path.append('/opt/venv/lib/python3.12/site-packages')

TRUSTED = [
    'the verifier itself: vf/engine (symbolic execution of the functions\' own syntax trees, and its models of Python and bs4)',
    'z3 (python binding, see back_end)',
]


def one(job):
    """runs one goal, in a process of its own"""
    prop, name, tier, budget = job
    sys.setrecursionlimit(20000)
    gc.disable()
    out = {'name': name, 'obligations': [], 'problems': [], 'paths': 0, 'wall': 0}
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            mod = importlib.import_module(f'vf.engine.goals.{prop.lower()}')
            from vf.engine.core import explore
            from vf.engine.interp import Interp
            g = {x.name: x for x in mod.GOALS}[name]
            out['statement'] = g.statement
            r = explore(name, g.fn, Interp, budget=g.budget if tier == 'quick' else g.budget*4,
                        max_paths=g.max_paths, timeout_ms=g.timeout_ms)
        for o in r.obligations.values():
            status = 'refuted' if o.refuted else 'unknown' if o.unknown else 'proved'
            d = {'name': o.name, 'status': status, 'times': o.proved}
            if o.refuted or o.unknown:
                d['detail'] = (o.refuted or o.unknown)[:2]
            out['obligations'].append(d)
        for c, n in r.covers.items():
            out['obligations'].append({'name': f'reachable: {c}', 'status': 'proved' if n else 'unknown', 'times': n})
        if r.problems:
            # what was proved along the paths which were followed isn't proved of the others
            for o in out['obligations']:
                if o['status'] == 'proved':
                    o['status'] = 'unknown'
        out.update(problems=r.problems, paths=r.paths, wall=round(r.wall, 2), solver_time=round(r.solver_time, 2),
                   solver_calls=r.solver_calls, functions=sorted(r.functions), contracts_used=sorted(r.contracts_used),
                   models_used=sorted(r.models_used), assumptions=sorted(r.assumptions))
        if not out['obligations'] and not out['problems']:
            out['problems'].append('no obligations')
    except Exception as e:
        out['problems'].append('verifier error: ' + ''.join(traceback.format_exception(e))[-1500:])
        for o in out['obligations']:
            o['status'] = 'unknown'
    return out


def main():
    prop, tier = sys.argv[1:3]
    only = sys.argv[3:]
    real = sys.stdout
    result = {}
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            import z3
            try:
                mod = importlib.import_module(f'vf.engine.goals.{prop.lower()}')
                goals = mod.GOALS
            except ModuleNotFoundError as e:
                if 'vf.engine.goals.' not in str(e):
                    raise
                mod, goals = None, []
        result = {
            'trusted_base': TRUSTED,
            'back_end': f'z3 {z3.get_version_string()}',
            'under_contract': getattr(mod, 'UNDER_CONTRACT', []),
            'bounded': getattr(mod, 'BOUNDED', []),
            'assumptions': getattr(mod, 'ASSUMPTIONS', []),
            'goals': [],
        }
        jobs = [(prop, g.name, tier, None) for g in sorted(goals, key=lambda g: -g.cost) if not only or g.name in only]
        n = int(os.environ.get('VF_JOBS', '8'))
        if jobs:
            end = time.time() + float(os.environ.get('VF_BUDGET', '3600'))
            with multiprocessing.get_context('fork').Pool(min(n, len(jobs)), maxtasksperchild=1) as pool:
                waiting = [(j, pool.apply_async(one, (j,))) for j in jobs]
                for j, r in waiting:
                    try:
                        result['goals'].append(r.get(max(0, end-time.time())))
                    except multiprocessing.TimeoutError:
                        result['goals'].append({'name': j[1], 'obligations': [], 'paths': 0, 'wall': 0,
                                                'problems': ['out of time: not decided before the end of the run']})
                pool.terminate()
    except Exception as e:
        result = {'fatal': ''.join(traceback.format_exception(e))[-1500:]}
    real.write(json.dumps(result) + '\n')
    real.flush()


if __name__ == '__main__':
    main()
