#!/usr/bin/env python3-vt
"""selftest.py [PROP ...]: replays sampled paths of every scenario on the real
code with the real gi, expecting nothing.  A development aid: it validates the
stand-ins (gistub, gtkstub, sched) and the concrete twin of the harness; no
check depends on it.  Each path is followed symbolically, a model of its
path condition is replayed."""
import importlib
import json
import os
import random
import subprocess
import sys
import tempfile
import time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
from concurrent.futures import ThreadPoolExecutor  # noqa: E402
import multiprocessing as mp                       # noqa: E402

PY = '/opt/venv/bin/python'
N = int(os.environ.get('N', '6'))
TIERS = os.environ.get('TIERS', 'quick').split(',')


def sample(task):
    prop, name, seed = task
    from engine.symex import Ctx
    from harness import load
    load.install_symbolic()
    mod = importlib.import_module('props.' + prop.lower())
    s = next(x for x in mod.SCENARIOS if x.name == name)
    ctx = Ctx(s.run, n_ids=s.n_ids, path_timeout=s.path_timeout, sym_sets=s.sym_sets)
    rnd = random.Random(seed)
    out = []
    ctx.split_depth = None
    ctx.forced = []
    for k in range(N * 6):
        ctx._reset_path()
        v = ctx._run_one([])
        if v is not None:
            return task, 'VIOLATION %s' % v, []
        if ctx._check():
            out.append(ctx._values(ctx.solver.model()))
        alts = [d for d, e in enumerate(ctx.stack) if e[2]]
        if not alts:
            break
        d = rnd.choice(alts)
        while len(ctx.stack) > d + 1:
            ctx.solver.pop()
            ctx.stack.pop()
        ent = ctx.stack[d]
        v, e = ent[2].pop(rnd.randrange(len(ent[2])))
        ctx.solver.pop()
        ctx.solver.push()
        ctx.solver.add(e)
        ent[1], ent[3] = v, e
    rnd.shuffle(out)
    return task, None, out[:N]


def replay(job):
    prop, name, values = job
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
        json.dump({'property': prop, 'scenario': name, 'values': values}, f)
    try:
        r = subprocess.run([PY, os.path.join(HERE, 'replay.py'), f.name], timeout=120,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=dict(os.environ, PYTHONHASHSEED='0'))
        return prop, name, r.returncode, r.stdout.decode()
    finally:
        os.unlink(f.name)


def main():
    props = sys.argv[1:] or ['C%02d' % i for i in range(1, 40) if os.path.exists(
        os.path.join(HERE, 'props', 'c%02d.py' % i))]
    tasks = []
    for p in props:
        mod = importlib.import_module('props.' + p.lower())
        for s in mod.SCENARIOS:
            if any(t in TIERS for t in s.tiers):
                tasks.append((p, s.name, 1))
    jobs = []
    t0 = time.time()
    with mp.Pool(8, maxtasksperchild=1) as pool:
        for task, err, vals in pool.imap_unordered(sample, tasks, 1):
            if err:
                print(task, err)
            jobs += [(task[0], task[1], v) for v in vals]
    print(len(jobs), 'paths', round(time.time() - t0), 's')
    bad = {}
    with ThreadPoolExecutor(8) as ex:
        for p, n, code, txt in ex.map(replay, jobs):
            if code:
                k = (p, n, code)
                bad.setdefault(k, [0, txt])[0] += 1
    for k, (c, txt) in sorted(bad.items()):
        print('==', k, c, 'times\n', txt[:900])
    print('done', round(time.time() - t0), 's,', len(bad), 'kinds of trouble')


main()
