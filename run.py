#!/usr/bin/env python3-vt
"""run.py PROPERTY [--tier quick|thorough] [--only SCENARIO]

Decides one property by symbolic execution of /repo's current code (see
DESIGN.md).  Exit 0: every assertion was discharged by the solver on every
path of every scenario.  Exit 1 + VIOLATION line: the solver produced an input
that breaks the property and that input was replayed on the real code.
Anything else: exit 2 (inconclusive, an error of the check).
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

from harness import load                      # noqa: E402

REPLAY_PYTHON = next((p for p in ('/opt/venv/bin/python', '/usr/bin/python3')
                      if os.path.exists(p)), sys.executable)


# ---- which functions of /repo were executed symbolically ---------------------
FUNCS = set()


def start_monitoring():
    mon = sys.monitoring
    tool = mon.PROFILER_ID
    try:
        mon.use_tool_id(tool, 'verif')
    except ValueError:
        return
    repo = load.REPO + os.sep

    def on_start(code, offset):
        fn = code.co_filename
        if fn.startswith(repo) and code.co_name != '<module>':
            FUNCS.add('%s:%s' % (fn[len(repo):], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, on_start)
    mon.set_events(tool, mon.events.PY_START)


# ---- workers -----------------------------------------------------------------
_CTX = {}
_SCEN = []


def get_ctx(k):
    from engine.symex import Ctx
    if k not in _CTX:
        s = _SCEN[k]
        _CTX[k] = Ctx(s.run, n_ids=s.n_ids, path_timeout=s.path_timeout,
                       sym_sets=s.sym_sets)
    return _CTX[k]


def work(task):
    k, prefix, split_depth, deadline = task
    from engine.symex import Stats
    try:
        start_monitoring()
        ctx = get_ctx(k)
        ctx.stats = Stats()
        v, splits = ctx.explore(prefix, split_depth=split_depth, deadline=deadline)
        if v is not None:
            _CTX.pop(k, None)
            v = {'label': v.label, 'detail': v.detail, 'values': v.values,
                 'trace': [str(t) for t in ctx.trace]}
        return k, v, splits, ctx.stats, sorted(FUNCS), None
    except BaseException as e:
        _CTX.pop(k, None)
        return k, None, [], Stats(), [], '%s\n%s' % (e, traceback.format_exc())


def init_worker():
    import gc
    gc.freeze()
    gc.set_threshold(5000, 10, 10)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    load.install_symbolic()


# ---- replay --------------------------------------------------------------------
def replay(prop, scen, viol, tag):
    d = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    data = {'property': prop, 'scenario': scen.name, 'values': viol['values'],
            'label': viol['label'], 'detail': viol['detail'],
            'trace': viol['trace']}
    h = hashlib.sha1(json.dumps([prop, scen.name, viol['values']],
                                sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, '%s-%s.json' % (prop, h))
    with open(path, 'w') as f:
        json.dump(data, f, indent=1, sort_keys=True)
    out = ''
    seeds = 24 if any(k.startswith('hash.') for k in viol['values']) else 2
    for seed in range(seeds):
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        try:
            r = subprocess.run([REPLAY_PYTHON, os.path.join(HERE, 'replay.py'), path],
                               env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=120)
        except subprocess.TimeoutExpired:
            continue
        out = r.stdout.decode(errors='replace')
        if r.returncode == 1 and 'REPLAY-VIOLATION' in out:
            data['hashseed'] = seed
            data['replay_output'] = out[-4000:]
            with open(path, 'w') as f:
                json.dump(data, f, indent=1, sort_keys=True)
            return path, True, out
    return path, False, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('--budget', type=float, default=0)
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    budget = a.budget or (840 if tier == 'quick' else 4 * 3600)
    deadline = t0 + budget
    mod = importlib.import_module('props.' + a.prop.lower())
    global _SCEN
    _SCEN = [s for s in mod.SCENARIOS if tier in s.tiers
             and (not a.only or a.only in s.name)]
    if a.list:
        for s in _SCEN:
            print(s.name, s.bounds)
        return 0
    jobs = a.jobs or min(8, os.cpu_count() or 1)
    # ~3 GB per worker at most
    from engine.symex import Stats
    stats = [Stats() for _ in _SCEN]
    walls = [0.0] * len(_SCEN)
    funcs = set()
    found = None
    error = None
    ghosts = []       # counterexamples the real code does not confirm
    mctx = mp.get_context('fork')
    pool = mctx.Pool(jobs, initializer=init_worker)
    try:
        # adaptive splitting: a task is cut at a given depth, its prefixes are
        # queued as new tasks, until there are enough of them
        pending = []

        def submit(k, prefix, depth):
            pending.append(pool.apply_async(work, ((k, prefix, depth, deadline),)))
        for k, s in enumerate(_SCEN):
            submit(k, [], 4)
        nsplit = [0] * len(_SCEN)
        seen_split = {}
        while pending and not found and not error:
            still = []
            progressed = False
            for r in pending:
                if not r.ready():
                    still.append(r)
                    continue
                progressed = True
                k, v, splits, st, fs, err = r.get()
                stats[k].merge(st)
                funcs.update(fs)
                if err:
                    error = '%s: %s' % (_SCEN[k].name, err)
                    break
                if v is not None:
                    path, ok, out = replay(a.prop, _SCEN[k], v, tier)
                    if ok:
                        found = (k, v, path, out)
                        break
                    ghosts.append((k, v, path, out))
                    if len(ghosts) >= 12:
                        error = 'too many counterexamples that do not replay'
                        break
                    continue
                for p in splits:
                    nsplit[k] += 1
                    if nsplit[k] < _SCEN[k].target_splits:
                        depth = len(p) + 3
                    else:
                        depth = None
                    item = pool.apply_async(work, ((k, p, depth, deadline),))
                    still.append(item)
            pending = still
            if time.time() > deadline + 30:
                error = 'budget exhausted'
            if not progressed:
                time.sleep(0.005)
    finally:
        pool.terminate()
        pool.join()
    total = Stats()
    for s in stats:
        total.merge(s)
    wall = time.time() - t0
    code = 0
    nviol = 0
    missing = []
    if found is None and error is None and not ghosts:
        for s, st in zip(_SCEN, stats):
            if st.paths == 0:
                missing.append('%s: no path completed' % s.name)
            for c in s.covers:
                if not st.covers.get(c):
                    missing.append('%s: %s never reached' % (s.name, c))
    def show(k, v):
        print('counterexample in scenario %s: %s' % (_SCEN[k].name, v['label']))
        for t in v['trace']:
            print('   ', t)
        if v['detail']:
            print(v['detail'])
    if found is not None:
        k, v, path, out = found
        show(k, v)
        print(out)
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        code, nviol = 1, 1
    elif ghosts:
        k, v, path, out = ghosts[0]
        show(k, v)
        print('INCONCLUSIVE: %d counterexample(s) do not reproduce on the '
              'real code (replay file %s)\n%s' % (len(ghosts), path, out))
        code = 2
    elif error is not None:
        print('INCONCLUSIVE: %s' % error)
        code = 2
    elif missing:
        print('INCONCLUSIVE (vacuous): %s' % '; '.join(missing))
        code = 2
    for e in getattr(mod, 'KNOWN', lambda: [])():
        if code == 0:
            print('KNOWN-FINDING: property=%s %s' % (a.prop, e))
    samples = []
    for s, st in zip(_SCEN, stats):
        for smp in st.samples[:1]:
            samples.append(dict(scenario=s.name, **smp))
    ev = {
        'property': a.prop, 'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': 'Symbolic execution of the real functions on SMT '
            'inputs; every feasible path within the stated bounds explored, '
            'every assertion discharged by z3 (unsat of path condition and '
            'negated assertion).',
            'functions_encoded': sorted(funcs),
            'scenarios': [dict(name=s.name, bounds=s.bounds, paths=st.paths,
                               queries=st.queries, solver_s=round(st.solver_s, 3),
                               branches=st.branches, assertions=st.assertions,
                               discharged=st.discharged,
                               path_facts=st.python_facts,
                               infeasible=st.infeasible,
                               max_decisions=st.max_depth,
                               reachability=st.covers, stubs=s.stubs)
                          for s, st in zip(_SCEN, stats)],
            'paths': total.paths, 'queries_discharged': total.queries,
            'assertions_discharged': total.discharged,
            'solver_s': round(total.solver_s, 2),
            'solver': 'z3 %s' % __import__('z3').get_version_string(),
            'samples': samples[:6],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': nviol,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print('%s %s: %d paths, %d queries, %d assertions discharged, solver %.1fs, '
          'wall %.1fs, exit %d' % (a.prop, tier, total.paths, total.queries,
                                   total.discharged, total.solver_s,
                                   time.time() - t0, code))
    for s, st in zip(_SCEN, stats):
        print('   %-28s %8d paths %9d queries  %7.1fs solver' % (
            s.name, st.paths, st.queries, st.solver_s))
    return code


if __name__ == '__main__':
    sys.exit(main())
