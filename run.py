#!/opt/venv/bin/python
"""Decide one property: run.py <CID> [--tier quick|thorough] [--replay FILE] [--only SUBSTRING]

Every unit of props/cXX.py is run in its own process: the real functions of /repo are executed
symbolically on the unit's symbolic inputs, every assertion becomes a solver query, a
counterexample is replayed on the real code before it is reported."""
import argparse
import importlib
import json
import os
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
EVID = os.path.join(HERE, 'evidence')


def known_findings():
    """[(property, unit, text in the failure, description)] and fixed entries (ignored)"""
    out = []
    try:
        for line in open(os.path.join(HERE, 'known_findings.txt')):
            line = line.strip()
            if line.startswith('known:'):
                f = dict(x.split('=', 1) for x in line[6:].split(' | ')[0].split(' ; ') for x in [x.strip()])
                out.append((f['property'], f['unit'], f['failure'], line.split(' | ', 1)[1]))
    except OSError:
        pass
    return out


def child(unit, w, seed, limit, mem, path):
    import harness
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    try:
        r = harness.run_unit(unit, seed=seed, budget=limit)
    except BaseException as e:
        r = dict(unit=unit.name, status='error', notes=['%s: %s' % (type(e).__name__, e),
                                                        traceback.format_exc()[-800:]], violations=[])
    with open(path + '.tmp', 'w') as f:
        json.dump(r, f, default=repr)
    os.rename(path + '.tmp', path)


def fallback(unit, seed, path, why):
    import harness
    try:
        r = harness.fallback_unit(unit, seed, why)
    except BaseException as e:
        r = dict(unit=unit.name, status='error', notes=['%s: %s' % (type(e).__name__, e)], violations=[])
    with open(path + '.tmp', 'w') as f:
        json.dump(r, f, default=repr)
    os.rename(path + '.tmp', path)


def listed(known, cid, r, v):
    return [x for x in known if x[0] == cid and x[1] == r['unit'] and x[2] in v['native']]


def run_all(units, seed, limit, deadline, jobs, mem, tmp, expected=lambda r, v: False):
    """-> {name: result}"""
    todo = list(enumerate(units))
    run, res = {}, {}
    t0 = time.time()
    stopped = False
    while todo or run:
        while todo and len(run) < jobs and not stopped and time.time() - t0 < deadline:
            i, u = todo.pop(0)
            p = os.path.join(tmp, '%d.json' % i)
            pid = os.fork()
            if pid == 0:
                os.setsid()
                try:
                    child(u, None, seed, (u.limit or limit) * .8, mem, p)
                finally:
                    os._exit(0)
            run[pid] = (i, u, p, time.time() + (u.limit or limit), False)
        if not run:
            break
        pid, _ = os.waitpid(-1, os.WNOHANG)
        if pid in run:
            i, u, p, _, fb = run.pop(pid)
            if os.path.exists(p):
                res[i] = json.load(open(p))
                if not stopped and any(not expected(res[i], v) for v in res[i]['violations']):
                    stopped = time.time()   # one confirmed violation decides the check
                    todo = []
            elif not fb:
                start_fb(run, i, u, p, seed, 'the symbolic run ended without a result')
            else:
                res[i] = dict(unit=u.name, status='error', notes=['no result'], violations=[])
            continue
        for q, (i, u, p, t, fb) in list(run.items()):
            over = time.time() > t or time.time() - t0 > deadline + 60 or (stopped and time.time() > stopped + 10)
            if over:
                try:
                    os.killpg(q, signal.SIGKILL)
                except OSError:
                    os.kill(q, signal.SIGKILL)
                os.waitpid(q, 0)
                del run[q]
                if stopped and not os.path.exists(p):
                    continue
                if fb or os.path.exists(p):
                    res[i] = json.load(open(p)) if os.path.exists(p) else dict(
                        unit=u.name, status='error', notes=['time limit'], violations=[])
                else:
                    start_fb(run, i, u, p, seed, 'time limit of the symbolic run')
        time.sleep(.02)
    for i, u in todo:
        if not stopped:
            res[i] = dict(unit=u.name, status='skipped', notes=['time budget of the check used up'], violations=[])
    return [res[i] for i in sorted(res)]


def start_fb(run, i, u, p, seed, why):
    pid = os.fork()
    if pid == 0:
        os.setsid()
        try:
            fallback(u, seed, p, why)
        finally:
            os._exit(0)
    run[pid] = (i, u, p, time.time() + 60, True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cid', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only', default='')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.selftest:
        return selftest()
    cid = a.cid.upper()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    try:
        import harness
        mod = importlib.import_module(cid.lower())
        units = mod.units()
    except Exception as e:
        # the code under test cannot even be imported: report what happened
        traceback.print_exc()
        rp = os.path.join(EVID, '%s.replay.json' % cid)
        json.dump(dict(property=cid, error='%s: %s' % (type(e).__name__, e)), open(rp, 'w'))
        evidence(cid, a.tier, seed, [], time.time() - t0, 1, [])
        print('VIOLATION property=%s replay=%s' % (cid, rp))
        return 1
    import history
    units += history.history(units, [k[1] for k in known_findings() if k[0] == cid], getattr(mod, 'HISTORY', None))
    if a.replay:
        d = json.load(open(a.replay))
        u = [u for u in units if u.name == d['unit']][0]
        print(harness.replay(u, d['inputs']))
        return 0
    names = [u.name for u in units]
    assert len(set(names)) == len(names), 'unit names repeat'
    sel = [u for u in units if (a.tier != 'quick' or u.tier == 'quick') and a.only in u.name]
    quick = a.tier == 'quick'
    import tempfile
    import shutil
    known = known_findings()
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % cid)
    try:
        res = run_all(sel, seed, 240 if quick else 1500, 560 if quick else 7200, int(os.environ.get(
            'VERIF_JOBS', os.cpu_count() or 4)), 5 << 30, tmp, lambda r, v: bool(listed(known, cid, r, v)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    viol, seen = [], []
    for r in res:
        for v in r['violations']:
            k = listed(known, cid, r, v)
            if k:
                seen.append(k[0][3])
            else:
                viol.append(dict(property=cid, unit=r['unit'], **v))
    for s in dict.fromkeys(seen):
        print('KNOWN-FINDING: property=%s %s' % (cid, s))
    evidence(cid, a.tier, seed, res, time.time() - t0, len(viol), seen)
    if a.v or a.only:
        for r in res:
            print(r['unit'], r['status'], 'wall %.1f' % r.get('wall', 0), 'undecided', r.get('undecided'), r['notes'][:3])
    bad = [r for r in res if r['status'] != 'ok' or r.get('undecided') or r.get('spurious')]
    print('%s %s: %d units, %d obligations, %d queries, %.1f s solver, %.1f s wall; %d not fully decided' % (
        cid, a.tier, len(res), sum(r.get('obligations', 0) for r in res),
        sum(r.get('stat', {}).get('queries', 0) for r in res),
        sum(r.get('stat', {}).get('solver_s', 0) for r in res), time.time() - t0, len(bad)))
    for r in bad:
        print('  incomplete:', r['unit'], r['status'], [n[:200] for n in r['notes'][:3]])
    if viol:
        v = viol[0]
        rp = os.path.join(EVID, '%s.replay.json' % cid)
        json.dump(v, open(rp, 'w'), indent=1, default=repr)
        print('  unit: %s\n  inputs: %s\n  real code: %s' % (v['unit'], json.dumps(v['inputs'])[:600], v['native']))
        print('VIOLATION property=%s replay=%s' % (cid, rp))
        return 1
    return 0


def selftest():
    """the framework imports, the solvers answer, a false claim is refuted and a true one proved"""
    import harness
    from hlib import check

    def wrong(x):
        check(x * x != 49 or x < 0, 'x')

    def right(x):
        check(x * x != 50, 'x')
    for f, n in ((wrong, 1), (right, 0)):
        r = harness.run_unit(harness.Unit(f.__name__, f, dict(x=harness.Int(-10, 10))))
        assert r['status'] == 'ok' and len(r['violations']) == n, r
    print('selftest passed')
    return 0


def evidence(cid, tier, seed, res, wall, nviol, seen):
    ok = [r for r in res if r['status'] == 'ok']
    enc = {}
    for r in res:
        for f, n in r.get('encoded', {}).items():
            enc[f] = enc.get(f, 0) + n
    st = {}
    for r in res:
        for k, n in r.get('stat', {}).items():
            st[k] = st.get(k, 0) + n
    cov = dict(
        states=int(sum(r.get('stmts', 0) for r in res)),
        transitions=int(sum(r.get('branches', 0) for r in res)),
        traces_validated_against_impl=int(sum(r.get('validated', 0) for r in res)),
        samples=[s for r in res for s in r.get('samples', [])[:1]][:12],
        states_meaning='program statements executed symbolically (each stands for all inputs reaching it)',
        transitions_meaning='branch decisions on symbolic conditions',
        obligations=int(sum(r.get('obligations', 0) for r in res)),
        obligations_decided_by_simplification=int(sum(r.get('trivial', 0) for r in res)),
        queries=int(st.get('queries', 0)), unsat=int(st.get('unsat', 0)), sat=int(st.get('sat', 0)),
        undecided=int(sum(r.get('undecided', 0) for r in res)),
        real_equalities_confirmed_in_bulk=int(st.get('equalities_confirmed', 0)),
        guards_confirmed_unsat_in_bulk=int(st.get('discharged', 0)),
        solver_seconds=round(st.get('solver_s', 0), 3),
        formula_nodes=int(st.get('nodes', 0)),
        functions_encoded=dict(sorted(enc.items())),
        functions_folded_on_constants=sorted({f for r in res for f in r.get('nativerun', {})}),
        bounds=[dict(unit=r['unit'], bounds=r.get('bounds', ''), wall_s=round(r.get('wall', 0), 2),
                     status=r['status']) for r in res],
        vacuity_witnesses={r['unit']: r['reach'] for r in ok if r.get('reach')},
        not_encoded=[dict(unit=r['unit'], why=r['notes'][:2], concrete_runs=r.get('concrete', 0)) for r in res
                     if r['status'] != 'ok'],
        notes=[dict(unit=r['unit'], notes=[n[:300] for n in r['notes'][:3]]) for r in ok if r['notes']],
        known_findings_seen=seen)
    d = dict(property=cid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed,
             level='model_checking', coverage=cov, wall_s=round(wall, 2), violations=nviol,
             assumptions=sorted({a for r in res for a in r.get('assumptions', [])} | {
                 'floating-point arithmetic is interpreted over exact real numbers',
                 'numpy, scipy and the standard library behave as modelled (checked by differential runs)'}))
    with open(os.path.join(EVID, '%s.json' % cid), 'w') as f:
        json.dump(d, f, indent=1, default=repr)


if __name__ == '__main__':
    sys.exit(main())
