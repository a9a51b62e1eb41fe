"""Running a check: cases in parallel, replay of counterexamples on the real code, evidence, exit code."""
import json
import queue
import multiprocessing as mp
import os
import re
import sys
import time
import traceback

import z3
from . import core

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known_findings.txt')


def known_keys(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


class Case:
    """one symbolic harness: fn(ctx) explored over all paths.

    to_input(cex, ctx) -> JSON-able concrete counterexample; replay(input) -> None if the real code
    behaves on it, otherwise text describing what it does wrong."""

    def __init__(self, name, fn, to_input, replay, bounds, **kw):
        self.name, self.fn, self.to_input, self.replay, self.bounds, self.kw = name, fn, to_input, replay, bounds, kw


def _run_case(case):
    st = core.STATS
    st.__init__()
    t = time.time()
    res = {'name': case.name, 'fails': [], 'error': None}
    witness = []

    def on_path(c):
        if not witness and len(core.CUR.pc) >= 0:
            s = c.solver()
            r = core.check(s)          # the twin assertion False: the end of a path must be reachable
            witness.append(str(r))
    try:
        kw = dict(case.kw)
        kw.pop('min_obligations', None)
        fails, n = core.explore(case.fn, on_path=on_path, **kw)
        for cex, c in fails:
            core.CUR = c
            res['fails'].append((cex.label, case.to_input(cex, c)))
        if not fails:
            if witness[:1] != ['sat']:
                res['error'] = 'vacuous: end of a path not reachable (%s)' % witness
            if st.obligations < case.kw.get('min_obligations', 1):
                res['error'] = 'vacuous: %d obligations' % st.obligations
    except core.Inconclusive as e:
        res['error'] = 'inconclusive: %s' % e
    except RecursionError as e:
        res['error'] = 'recursion: %s' % e
    except Exception:
        res['error'] = traceback.format_exc()
    res.update(paths=st.paths, obligations=st.obligations, discharged=st.discharged, queries=st.queries,
               sat=st.sat, unsat=st.unsat, solver_s=round(st.solver_s, 3), wall_s=round(time.time() - t, 2),
               functions=sorted(st.functions), bounds=case.bounds, witness=witness[:1])
    return res


def _worker(args):
    case, q, i = args
    q.put((i, _run_case(case)))


def run_cases(cases, jobs=8, limit=None, on_result=None):
    """fork a process per case, at most `jobs` at a time"""
    out = [None] * len(cases)
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    live, nxt, done = {}, 0, 0
    t0 = time.time()
    while done < len(cases):
        while nxt < len(cases) and len(live) < jobs:
            p = ctx.Process(target=_worker, args=((cases[nxt], q, nxt),))
            p.start()
            live[nxt] = p
            nxt += 1
        try:
            i, r = q.get(timeout=1)
            out[i] = r
            live.pop(i).join()
            done += 1
            if on_result and on_result(i, r):
                for p in live.values():
                    p.kill()
                for k in range(len(cases)):
                    if out[k] is None:
                        out[k] = {'name': cases[k].name, 'fails': [], 'error': None, 'paths': 0, 'obligations': 0, 'discharged': 0,
                                  'queries': 0, 'sat': 0, 'unsat': 0, 'solver_s': 0, 'wall_s': 0, 'functions': [],
                                  'bounds': cases[k].bounds + ' (not finished: a violation was confirmed first)'}
                return out
        except queue.Empty:
            for i, p in list(live.items()):
                if not p.is_alive():
                    try:
                        j, r = q.get(timeout=1)
                        out[j] = r
                        live.pop(j).join()
                        done += 1
                    except queue.Empty:
                        if i in live:
                            out[i] = {'name': cases[i].name, 'fails': [], 'error': 'worker died (exit %s)' % p.exitcode,
                                      'paths': 0, 'obligations': 0, 'discharged': 0, 'queries': 0, 'sat': 0, 'unsat': 0,
                                      'solver_s': 0, 'wall_s': 0, 'functions': [], 'bounds': cases[i].bounds}
                            live.pop(i)
                            done += 1
            if limit and time.time() - t0 > limit:
                for i, p in live.items():
                    p.kill()
                    out[i] = {'name': cases[i].name, 'fails': [], 'error': 'time limit', 'paths': 0, 'obligations': 0,
                              'discharged': 0, 'queries': 0, 'sat': 0, 'unsat': 0, 'solver_s': 0, 'wall_s': limit,
                              'functions': [], 'bounds': cases[i].bounds}
                for k in range(nxt, len(cases)):
                    out[k] = dict(out[next(iter(live))] if live else {}, name=cases[k].name, error='not run: time limit')
                break
    return out


def run_check(pid, cases, tier, explanation, assumptions, outside, extra=None, jobs=8, limit=None):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    known = known_keys(pid)
    code = 0
    violations, seen_known, errors = [], set(), []

    def on_result(i, r):
        case = cases[i]
        if r['error']:
            errors.append('%s: %s' % (case.name, r['error']))
        for label, inp in r['fails']:
            try:
                got = case.replay(inp)
            except Exception:
                errors.append('%s: replay crashed: %s' % (case.name, traceback.format_exc()))
                continue
            if got is None:
                errors.append('%s: counterexample does not reproduce on the real code: %s %s' % (
                    case.name, label, json.dumps(inp, default=str)[:2000]))
                continue
            key = inp.get('key', case.name) if isinstance(inp, dict) else case.name
            if key in known:
                if key not in seen_known:
                    seen_known.add(key)
                    print('KNOWN-FINDING: property=%s %s' % (pid, known[key]))
                continue
            violations.append((case.name, label, inp, got))
            return True
    results = run_cases(cases, jobs, limit, on_result)
    for r in results:
        if r['error'] and not any(e.startswith(r['name'] + ': ' + r['error'][:40]) for e in errors):
            errors.append('%s: %s' % (r['name'], r['error']))
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    for k, (cn, label, inp, got) in enumerate(violations[:5]):
        path = os.path.join(HERE, 'evidence', 'replay', '%s_%d.json' % (pid, k))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'case': cn, 'claim': label, 'input': inp, 'observed': got}, f, indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  case %s, claim: %s' % (cn, label))
        print('  ' + str(got)[:1500])
        code = 1
    cov = {
        'explanation': explanation,
        'paths': sum(r['paths'] for r in results),
        'obligations': sum(r['obligations'] for r in results),
        'discharged': sum(r['discharged'] for r in results),
        'solver_queries': sum(r['queries'] for r in results),
        'solver_sat': sum(r['sat'] for r in results),
        'solver_unsat': sum(r['unsat'] for r in results),
        'solver_s': round(sum(r['solver_s'] for r in results), 2),
        'functions_encoded': sorted({f for r in results for f in r['functions']}),
        'cases': [{k: r.get(k) for k in ('name', 'bounds', 'paths', 'obligations', 'discharged', 'queries', 'solver_s', 'wall_s', 'witness', 'error')} for r in results],
        'outside_the_bounds': outside,
        'known_findings_seen': sorted(seen_known),
        'inconclusive': errors[:20],
    }
    cov.update(extra or {})
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'assumptions': assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if code == 0 and errors:
        for e in errors[:10]:
            print('INCONCLUSIVE %s %s' % (pid, e))
        code = 3
    print('%s %s: %d cases, %d paths, %d/%d obligations discharged, %d queries, %.1fs solver, %.1fs wall -> exit %d' % (
        pid, tier, len(results), cov['paths'], cov['discharged'], cov['obligations'], cov['solver_queries'],
        cov['solver_s'], ev['wall_s'], code))
    return code
