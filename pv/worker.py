"""pv.worker -- run contracts in a process of their own.

usage: worker.py symbolic|concrete|replay PROP OUT.json JOB.json
"""
import importlib
import json
import os
import sys
import time
import traceback

SRC = os.environ.get('PV_SRC', '/repo/src')


def load(prop):
    from . import api
    for f in sorted(os.listdir(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts'))):
        if f.endswith('.py') and f.lower().startswith(prop.lower()):
            importlib.import_module(f'contracts.{f[:-3]}')
    return {k: u for k, u in api.REGISTRY.items() if u.prop == prop}


def run_symbolic(units, ids, budget):
    from . import loader as ld, symbolic
    for u in units.values():
        for site in u.loops:
            ld.LOOP_FUNCTIONS.add(site.rsplit('#', 1)[0])
    L = ld.Loader()
    out = {}
    for i in ids:
        u = units[i]
        L.configure(u)
        try:
            r = symbolic.explore(u.fn, L, budget=budget * u.weight)
        except BaseException as err:
            if isinstance(err, KeyboardInterrupt):
                raise
            out[i] = dict(status='outofreach', reason=f'engine: {type(err).__name__}: {err} '
                          + traceback.format_exc()[-600:],
                          obligations=0, discharged=0, failures=[], paths=0, queries=0, solver_s=0,
                          labels={}, assumed=[], stubs=[], wall=0, cvc5=0)
            continue
        out[i] = dict(status=r.status, reason=r.reason, obligations=r.obligations,
                      discharged=r.discharged, paths=r.stats.paths, queries=r.stats.queries,
                      solver_s=round(r.stats.solver_s, 3), labels=r.labels, assumed=r.assumed,
                      stubs=sorted(L.used_stubs), wall=round(r.wall, 3), cvc5=r.cvc5,
                      failures=[dict(label=f.label, inputs=f.inputs, detail=f.detail, kind=f.kind)
                                for f in r.failures])
    out['__loaded__'] = dict(L.loaded)
    return out


def _frame(err):
    """Who raised: 'code' (goats), or 'contract'."""
    tb = traceback.extract_tb(err.__traceback__)
    who = 'contract'
    where = ''
    for f in tb:
        if f.filename.startswith(SRC):
            who, where = 'code', f'{f.filename}:{f.lineno}'
        elif '/contracts/' in f.filename:
            who, where = 'contract', f'{f.filename}:{f.lineno}'
    return who, where


def one(u, v):
    """Run one contract once.  Returns None, 'discard', or a failure dict."""
    from .api import Violation, Discard, Inapplicable
    try:
        u.fn(v)
    except Discard:
        return 'discard'
    except Inapplicable as err:
        return ('inapplicable', str(err))
    except Violation as err:
        return dict(label=err.label, detail=str(err.detail)[:600], inputs=v.used)
    except RecursionError as err:
        return dict(label='no unexpected exception', detail='RecursionError', inputs=v.used)
    except Exception as err:
        who, where = _frame(err)
        return dict(label='no unexpected exception' if who == 'code' else 'result has the required shape',
                    detail=f'{type(err).__name__}: {err} at {where}'[:600], inputs=v.used)
    finally:
        v.unpatch()
    return None


def run_concrete(units, ids, seed, tier, budget):
    from .api import Concrete
    out = {}
    for i in ids:
        u = units[i]
        n = 1 if u.kind == 'finite' else u.samples * (u.thorough if tier == 'thorough' else 1)
        t0 = time.time()
        done = discarded = evals = 0
        fails = []
        sample = None
        status = 'ok'
        distinct = set()
        for k in range(n * 4):
            if done >= n or (done >= 3 and time.time() - t0 > budget * u.weight):
                break
            v = Concrete(seed=f'{seed}/{i}', tier=tier, index=k)
            r = one(u, v)
            evals += v.evals
            if r == 'discard':
                discarded += 1
                continue
            if isinstance(r, tuple):
                status = r[0] + ': ' + r[1]
                break
            done += 1
            distinct.add(json.dumps(v.used, sort_keys=True, default=str))
            if sample is None and v.used:
                sample = {a: str(b) for a, b in v.used.items()}
            if r is not None:
                r['index'] = k
                r['inputs'] = {a: enc(b) for a, b in r['inputs'].items()}
                fails.append(r)
                if len(fails) >= 8:
                    break
        out[i] = dict(status=status, runs=done, discarded=discarded, checks=evals, distinct=len(distinct),
                      failures=fails, sample=sample, wall=round(time.time() - t0, 3))
    return out


def enc(x):
    import fractions
    if isinstance(x, fractions.Fraction):
        return str(x)
    if isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, float):
        return str(fractions.Fraction(x)) if x == x and abs(x) != float('inf') else repr(x)
    return str(x)


def run_replay(units, jobs, seed, tier):
    """jobs: [{unit, inputs, index}] -> failures"""
    from .api import Concrete
    out = []
    for j in jobs:
        u = units[j['unit']]
        v = Concrete(seed=f'{seed}/{j["unit"]}', inputs=j['inputs'], tier=tier, index=j.get('index', 0))
        r = one(u, v)
        if isinstance(r, dict):
            r['inputs'] = {a: enc(b) for a, b in r['inputs'].items()}
            out.append(r)
        else:
            out.append(None)
    return out


def main():
    mode, prop, outp, jobp = sys.argv[1:5]
    sys.setrecursionlimit(3000)
    job = json.load(open(jobp))
    if mode != 'symbolic':
        sys.path.insert(0, SRC)
    units = load(prop)
    if mode == 'symbolic':
        res = run_symbolic(units, job['units'], job['budget'])
    elif mode == 'concrete':
        res = run_concrete(units, job['units'], job['seed'], job['tier'], job['budget'])
        import goats
        assert os.path.realpath(goats.__file__).startswith(os.path.realpath(SRC)), goats.__file__
    else:
        res = run_replay(units, job['jobs'], job['seed'], job['tier'])
    with open(outp + '.tmp', 'w') as fp:
        json.dump(res, fp)
    os.replace(outp + '.tmp', outp)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
