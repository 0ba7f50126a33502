#!/usr/bin/env python3
"""plant.py SPEC.py ...: builds seeded/<name>/ from a bug description and says
whether it applies, passes the tests, is shown by its demonstration, and is
caught by the check of its property.

SPEC.py defines PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python).
The change is made in a scratch copy of /repo only."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
XVFB = '''export GDK_BACKEND=x11 GTK_A11Y=none NO_AT_BRIDGE=1 GIO_USE_VFS=local GSETTINGS_BACKEND=memory
unset WAYLAND_DISPLAY
w=$(mktemp -d)
Xvfb -displayfd 3 -screen 0 800x600x24 -nolisten tcp 3>"$w/display" >"$w/log" 2>&1 &
x=$!
trap 'kill $x 2>/dev/null; wait 2>/dev/null; rm -rf "$w"' EXIT
for _ in $(seq 300); do [ -s "$w/display" ] && break; sleep 0.1; done
export DISPLAY=":$(cat "$w/display")"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def main(spec, check=True):
    name = os.path.basename(spec)[:-3]
    s = runpy.run_path(spec)
    out = os.path.join(HERE, 'seeded', name)
    tmp = tempfile.mkdtemp(prefix='plant')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        demo = os.path.join(tmp, 'demo')
        os.mkdir(demo)
        with open(os.path.join(demo, 'demo.py'), 'w') as f:
            f.write(s['DEMO'].lstrip())
        with open(os.path.join(demo, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\n'
                    + (XVFB if s.get('DISPLAY') else '') +
                    'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" %s%s '
                    '"$d/demo.py"\n' % ('' if s.get('DISPLAY') else 'exec ', PY))
        os.chmod(os.path.join(demo, 'demo.sh'), 0o755)
        r = sh(['bash', os.path.join(demo, 'demo.sh')], cwd=repo)
        if r.returncode:
            print(name, 'DEMO FAILS ON THE UNCHANGED TREE\n', r.stdout.decode()[-1500:])
            return
        for fn, old, new in s['EDITS']:
            p = os.path.join(repo, fn)
            txt = open(p).read()
            if txt.count(old) != 1:
                print(name, 'EDIT MATCHES %d TIMES: %r' % (txt.count(old), old))
                return
            open(p, 'w').write(txt.replace(old, new))
        diff = sh(['git', 'diff'], cwd=repo).stdout
        r = sh(['bash', os.path.join(demo, 'demo.sh')], cwd=repo)
        if not r.returncode:
            print(name, 'DEMO DOES NOT SHOW THE BUG')
            return
        # tests
        with open('/opt/vp/test.sh') as f:
            script = f.read().replace('cd /repo', 'cd ' + repo)
        with open(os.path.join(tmp, 'test.sh'), 'w') as f:
            f.write(script)
        sh(['bash', os.path.join(tmp, 'test.sh'), os.path.join(tmp, 'o.json')])
        got = json.load(open(os.path.join(tmp, 'o.json')))
        want = json.load(open('/opt/vp/BASELINE.json'))
        bad = [t for t in want['stable'] if t not in got['passed']]
        last = '%d stable tests pass' % len(want['stable'])
        if bad:
            print(name, 'TESTS FAIL', bad)
            return
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, 'patch.diff'), 'wb') as f:
            f.write(diff)
        for fn in ('demo.py', 'demo.sh'):
            shutil.copy(os.path.join(demo, fn), out)
        with open(os.path.join(out, 'meta.json'), 'w') as f:
            json.dump({'property': s['PROP'], 'needs': s['NEEDS'],
                       'what_it_breaks': s['BREAKS']}, f, indent=1)
            f.write('\n')
        if check:
            env = dict(os.environ, VERIF_REPO=repo)
            for p in s['PROP'].split():
                r = sh(['python3-vt', os.path.join(HERE, 'run.py'), p], cwd=HERE, env=env)
                txt = r.stdout.decode()
                print(name, p, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'EXIT %d' % r.returncode),
                      '|', last, '|', next((l for l in txt.splitlines() if l.startswith(
                          ('counterexample', 'INCONC'))), ''))
    finally:
        shutil.rmtree(tmp)


for a in sys.argv[1:]:
    main(a)
