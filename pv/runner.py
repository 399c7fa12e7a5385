"""pv.runner -- decide one property: prove, replay, write evidence.

usage: python -m pv.runner PROP [--tier quick|thorough]
exit 0: every obligation discharged (or, where the evidence says so, the
bounded stand-in found nothing); exit 1: VIOLATION line printed.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('PV_EVIDENCE') or os.path.join(ROOT, 'evidence')
PY = os.environ.get('PV_PYTHON', '/opt/venv/bin/python')


def env():
    e = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'PYTHONHOME')}
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', LC_ALL='C.UTF-8',
             OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    return e


class Pool:
    def __init__(self, scratch, limit):
        self.scratch, self.limit = scratch, limit
        self.n = 0

    def run(self, tasks, timeout):
        """tasks: [(mode, prop, job)] -> results (None on failure)"""
        todo = list(enumerate(tasks))
        live = {}
        results = [None] * len(tasks)
        errs = [''] * len(tasks)
        while todo or live:
            while todo and len(live) < self.limit:
                k, (mode, prop, job) = todo.pop(0)
                self.n += 1
                base = os.path.join(self.scratch, f'j{self.n}')
                with open(base + '.in', 'w') as fp:
                    json.dump(job, fp)
                p = subprocess.Popen([PY, '-B', '-m', 'pv.worker', mode, prop, base + '.out', base + '.in'],
                                     cwd=ROOT, env=env(), stdout=subprocess.DEVNULL,
                                     stderr=open(base + '.err', 'w'))
                live[k] = (p, base, time.time())
            time.sleep(0.05)
            for k, (p, base, t) in list(live.items()):
                if p.poll() is None:
                    if time.time() - t > timeout:
                        p.kill()
                        p.wait()
                    else:
                        continue
                del live[k]
                if os.path.exists(base + '.out'):
                    results[k] = json.load(open(base + '.out'))
                else:
                    errs[k] = open(base + '.err').read()[-3000:]
        return results, errs


def shard(ids, units, n, weight):
    bins = [[] for _ in range(max(1, n))]
    load = [0.0] * len(bins)
    for i in sorted(ids, key=lambda i: -weight(units[i])):
        b = load.index(min(load))
        bins[b].append(i)
        load[b] += weight(units[i])
    return [b for b in bins if b]


def known_findings(prop):
    path = os.path.join(ROOT, 'known_findings.json')
    try:
        data = json.load(open(path))
    except FileNotFoundError:
        return []
    return [f for f in data.get('findings', []) if f['property'] == prop and f.get('status') != 'fixed']


def main(argv=None):
    argv = list(sys.argv[1:] if argv is None else argv)
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    sys.path.insert(0, ROOT)
    from pv import worker
    units = worker.load(prop)
    if not units:
        print(f'no contracts for {prop}', file=sys.stderr)
        return 3
    proof = [i for i, u in units.items() if u.kind == 'proof']
    scratch = tempfile.mkdtemp(prefix='pv-')
    try:
        return decide(prop, tier, seed, units, proof, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, tier, seed, units, proof, scratch, t0):
    pool = Pool(scratch, 8)
    sbudget = 40 if tier == 'quick' else 300
    cbudget = 8 if tier == 'quick' else 90
    stasks = [('symbolic', prop, dict(units=b, budget=sbudget))
              for b in shard(proof, units, 5, lambda u: u.weight)]
    ctasks = [('concrete', prop, dict(units=b, budget=cbudget, seed=seed, tier=tier))
              for b in shard(list(units), units, 4, lambda u: u.weight * (3 if u.kind != 'proof' else 1))]
    results, errs = pool.run(stasks + ctasks, 420 if tier == 'quick' else 3000)
    sym, con, loaded = {}, {}, {}
    for (mode, _, job), r, e in zip(stasks + ctasks, results, errs):
        if r is None:
            for i in job['units']:
                if mode == 'symbolic':
                    sym[i] = dict(status='outofreach', reason='worker died or timed out: ' + e[-400:],
                                  obligations=0, discharged=0, failures=[], paths=0, queries=0, solver_s=0,
                                  labels={}, assumed=[], stubs=[], wall=0, cvc5=0)
                else:
                    con[i] = dict(status='error: ' + e[-1500:], runs=0, discarded=0, checks=0, distinct=0,
                                  failures=[], sample=None, wall=0)
            continue
        if mode == 'symbolic':
            loaded.update(r.pop('__loaded__', {}))
            sym.update(r)
        else:
            con.update(r)

    violations = []      # (unit, failure, kind)
    # 1. run-time failures on the real code
    for i, r in con.items():
        for f in r['failures']:
            violations.append((i, f, 'replayed'))
    # 2. countermodels of the verifier: replay them on the real code
    undecided = {}
    jobs = [dict(unit=i, inputs=f['inputs'], index=k, f=f)
            for i, r in sym.items() if r['status'] == 'refuted' for k, f in enumerate(r['failures'])]
    if jobs:
        rep, err = pool.run([('replay', prop, dict(jobs=[{k: j[k] for k in ('unit', 'inputs', 'index')} for j in jobs],
                                                   seed=seed, tier=tier))], 200)
        rep = rep[0] or [None] * len(jobs)
        for j, r in zip(jobs, rep):
            if r:
                violations.append((j['unit'], dict(r, obligation=j['f']['label'],
                                                   verifier=j['f']['detail']), 'replayed'))
        concrete_bad = {i for i, _, _ in violations}
        again = [i for i in {j['unit'] for j in jobs} if i not in concrete_bad]
        if again:
            # search harder for a failing input before giving up
            res, _ = pool.run([('concrete', prop, dict(units=[i], budget=30, seed=seed + 1000 + k, tier='thorough'))
                               for i in again for k in range(2)], 200)
            for r in res:
                for i, x in (r or {}).items():
                    for f in x['failures']:
                        violations.append((i, f, 'replayed'))
            concrete_bad = {i for i, _, _ in violations}
        for j in jobs:
            if j['unit'] in concrete_bad:
                continue
            f = j['f']
            if f['kind'] == 'obligation':
                violations.append((j['unit'], f, 'unreplayed'))
            else:
                undecided[j['unit']] = f"{f['label']}: {f['detail']}"
    # known findings
    findings = known_findings(prop)
    fresh, seen = [], []
    for i, f, kind in violations:
        hit = next((k for k in findings if matches(k, i, f)), None)
        if hit is not None and kind == 'replayed':
            if hit not in seen:
                seen.append(hit)
        else:
            fresh.append((i, f, kind))
    for k in seen:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    errors = {i: r['status'] for i, r in con.items() if r['status'].startswith('error')}
    code = 0
    if fresh:
        code = 1
        fresh.sort(key=lambda x: x[2] != 'replayed')
        report(prop, fresh, seed, tier)
    evidence(prop, tier, seed, units, proof, sym, con, undecided, fresh, seen, loaded, t0)
    if code == 0 and errors and len(errors) == len(con):
        print(f'checker error: {next(iter(errors.values()))}', file=sys.stderr)
        return 4
    for i, e in errors.items():
        print(f'note: {i}: {e[-300:]}', file=sys.stderr)
    summary(prop, sym, con, proof, code, undecided, t0)
    return code


def matches(k, unit, f):
    if k['unit'] != unit:
        return False
    if k.get('label') and k['label'] != f.get('label'):
        return False
    return all(str(f.get('inputs', {}).get(a)) == str(b) for a, b in k.get('inputs', {}).items()) \
        and (k.get('detail_contains', '') in str(f.get('detail', '')))


def report(prop, fresh, seed, tier):
    d = os.path.join(EVIDENCE, 'replay')
    os.makedirs(d, exist_ok=True)
    done = set()
    for i, f, kind in fresh:
        if i in done:
            continue
        done.add(i)
        path = os.path.join(d, f'{i}.json')
        with open(path, 'w') as fp:
            json.dump(dict(property=prop, unit=i, kind=kind, failed_obligation=f.get('obligation', f.get('label')),
                           runtime_label=f.get('label'), detail=f.get('detail'), verifier_output=f.get('verifier', f.get('detail')),
                           inputs=f.get('inputs'), index=f.get('index', 0), seed=seed, tier=tier,
                           rerun=f'cd {ROOT} && ./replay {os.path.relpath(path, ROOT)}'), fp, indent=1)
        tail = '' if kind == 'replayed' else ' no-failing-input-found'
        print(f'  obligation {i}: {f.get("label")}: {str(f.get("detail"))[:300]}')
        print(f'VIOLATION property={prop} replay={path}{tail}')
    sys.stdout.flush()


ASSUME = [
    'float-as-real: machine floating point is treated as real arithmetic in discharged obligations; the same '
    'contracts are also run with floats on the real package',
    'z3 (and cvc5 for second opinions) are sound; CPython/PyPy semantics of the executed subset are those of the '
    'interpreter running the proof (native execution)',
    'numpy ufuncs act elementwise and call the operand\'s arithmetic (numpy, scipy, re, inspect are trusted)',
    'symbolic names (where used) range over strings distinct from the string literals used as dictionary keys '
    'by the code under proof; literals are covered by explicit cases',
]


def unbounded(u):
    return not u.bound or u.bound.startswith('none')


def some(labels, limit=40):
    """The first labels and how many more there are: the evidence file has a size limit."""
    labels = list(labels)
    return labels if len(labels) <= limit else labels[:limit] + [f'... and {len(labels) - limit} more']


def evidence(prop, tier, seed, units, proof, sym, con, undecided, fresh, seen, loaded, t0):
    proved = [i for i in proof if sym.get(i, {}).get('status') == 'proved']
    notp = {i: (undecided.get(i) or sym.get(i, {}).get('reason', '')) for i in proof if i not in proved}
    finite = [i for i, u in units.items() if u.kind == 'finite']
    bounded = [i for i, u in units.items() if u.kind == 'bounded']
    ob = sum(sym[i]['obligations'] for i in proof if i in sym)
    di = sum(sym[i]['discharged'] for i in proof if i in sym)
    samples = [dict(unit=i, inputs=r['sample']) for i, r in con.items() if r.get('sample')][:5]
    level = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
    lv = next((c['level'] for c in level['checks'] if c['property'] == prop), 'proof')
    cov = dict(
        obligations=ob, discharged=di,
        checker_cmd=f'{PY} -B -m pv.runner {prop} --tier {tier}',
        trusted_base=['pv (the verifier in /verif/pv)', 'z3 5.3.2', 'cvc5 1.1.2 (second opinion)', 'PyPy 3.9', 'numpy/scipy/re'],
        functions_under_contract=sorted({t for i in proved for t in units[i].targets}),
        contracts_proved_without_bound=sorted(i for i in proved if unbounded(units[i])),
        contracts_proved_within_structure={i: units[i].bound for i in proved if not unbounded(units[i])},
        contracts_proved={i: dict(targets=units[i].targets, obligations=sym[i]['obligations'], paths=sym[i]['paths'],
                                  solver_queries=sym[i]['queries'], solver_s=sym[i]['solver_s'],
                                  backend='z3' + ('+cvc5' if sym[i]['cvc5'] else ''), labels=some(sym[i]['labels']),
                                  bound=units[i].bound or 'none: all inputs',
                                  callee_contracts_assumed=sym[i]['stubs'],
                                  lemmas_assumed=sym[i]['assumed'], assumes=units[i].assumes) for i in proved},
        contracts_not_proved_this_run=notp,
        finite_domains_enumerated={i: dict(targets=units[i].targets, checks=con.get(i, {}).get('checks', 0)) for i in finite},
        bounded_stand_ins={i: dict(targets=units[i].targets, bound=units[i].bound, runs=con.get(i, {}).get('runs', 0),
                                   checks=con.get(i, {}).get('checks', 0)) for i in bounded},
        runtime_checked={i: dict(runs=r['runs'], distinct=r['distinct'], checks=r['checks'], status=r['status'])
                         for i, r in con.items()},
        evaluations=sum(r['runs'] for r in con.values()),
        distinct_nontrivial=sum(r['distinct'] for r in con.values()),
        rule='each contract is also executed on the real package with seeded samples of its precondition; '
             'distinct = distinct input assignments that met the precondition',
        samples=samples,
        solver_s=round(sum(r['solver_s'] for r in sym.values()), 3),
        source_files=sorted(set(loaded.values())),
    )
    data = dict(property=prop, tier=tier, seed=seed, level=lv, coverage=cov,
                assumptions=ASSUME + sorted({a for u in units.values() for a in u.assumes}),
                wall_s=round(time.time() - t0, 2), violations=len(fresh))
    os.makedirs(os.path.join(EVIDENCE), exist_ok=True)
    path = os.path.join(EVIDENCE, f'{prop}.json')
    with open(path + '.tmp', 'w') as fp:
        json.dump(data, fp, indent=1, default=str)
    os.replace(path + '.tmp', path)


def summary(prop, sym, con, proof, code, undecided, t0):
    n = sum(sym.get(i, {}).get('status') == 'proved' for i in proof)
    ob = sum(sym[i]['obligations'] for i in proof if i in sym)
    di = sum(sym[i]['discharged'] for i in proof if i in sym)
    runs = sum(r['runs'] for r in con.values())
    print(f'{prop}: {n}/{len(proof)} contracts proved, {di}/{ob} obligations discharged, '
          f'{runs} run-time evaluations, {"VIOLATED" if code else "held"}, {time.time()-t0:.1f} s')
    for i in proof:
        s = sym.get(i, {})
        if s.get('status') != 'proved':
            print(f'  not proved this run: {i}: {s.get("status")} {undecided.get(i) or s.get("reason", "")}'[:400])
    for i, r in con.items():
        if r['status'] != 'ok':
            print(f'  run-time: {i}: {r["status"][:200]}')


if __name__ == '__main__':
    sys.exit(main())
