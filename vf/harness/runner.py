"""python -m vf.harness.runner PROP SEED SCALE [--case NAME INDEX]: prints one JSON line."""
import sys, json, os, time, tempfile, shutil, io, contextlib

def main():
    args = sys.argv[1:]
    prop, seed, scale = args[0], int(args[1]), float(args[2])
    only = None
    if '--case' in args:
        i = args.index('--case')
        only = (args[i+1], int(args[i+2]))
    try:
        from vf.harness import hlib
        import importlib
        for m in ('c_time', 'c_timeline', 'c_value', 'c_layer', 'c_anim', 'c_bywords'):
            try:
                importlib.import_module('vf.harness.'+m)
            except ModuleNotFoundError as e:
                if not (e.name or '').startswith('vf.harness'):
                    raise
    except BaseException as e:
        import traceback
        print(json.dumps({'fatal': f'{type(e).__name__}: {e}', 'tb': traceback.format_exc()[-1500:]}))
        return
    scratch = tempfile.mkdtemp(prefix='vfh')
    budget = float(os.environ.get('VF_BUDGET', '90'))
    t0 = time.time()
    out = {'violations': [], 'errors': [], 'evaluations': 0, 'checks': 0, 'by_case': {}, 'samples': [], 'truncated': False}
    seen = set()
    try:
        # a few of each case in turn, so that a budget that runs out cuts them all short
        todo = []
        for name, weight, fn in hlib.CASES.get(prop, []):
            if only and name != only[0]:
                continue
            out['by_case'][name] = 0
            n = max(1, int(weight*scale))
            step = max(1, int(weight*10))
            if only:
                todo.append((0, name, fn, [only[1]]))
            else:
                todo.extend((a//step, name, fn, range(a, min(n, a+step))) for a in range(0, n, step))
        todo.sort(key=lambda x: x[0])
        stop = set()
        for _, name, fn, idx in todo:
            for i in idx:
                if name in stop:
                    break
                if time.time()-t0 > budget and not only:
                    out['truncated'] = True
                    break
                h, err = hlib.run_one(prop, name, fn, seed, i, scratch)
                out['by_case'][name] += 1
                out['evaluations'] += 1
                out['checks'] += h.checks
                seen.add(hash((name, tuple(h.trace), getattr(h, 'doc', ''))))
                if len(out['samples']) < 4 and i == 1:
                    out['samples'].append({'case': name, 'index': i, 'trace': h.trace[:3]})
                if err:
                    rec = {'case': name, 'index': i, 'seed': seed, 'message': err, 'trace': h.trace[-20:],
                           'doc': getattr(h, 'doc', None)}
                    if err.startswith('HARNESS-ERROR'):
                        out['errors'].append(rec)
                    else:
                        out['violations'].append(rec)
                    stop.add(name)
            if out['truncated'] or len(stop) >= 3:
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    out['distinct'] = len(seen)
    out['wall'] = time.time()-t0
    print(json.dumps(out))

main()
