"""replay.py FILE: run one counterexample on the real, unpatched code (plain
Python values, the real gi).  Exit 1 and REPLAY-VIOLATION if it fails there."""
import importlib
import json
import os
import signal
import subprocess
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent-pycache'

from harness.concrete import ConcreteCtx, ReplayViolation, ReplayVoid  # noqa: E402


def display():
    """a private X server for replays that need real widgets"""
    r, w = os.pipe()
    p = subprocess.Popen(['Xvfb', '-displayfd', str(w), '-screen', '0', '640x480x24',
                          '-nolisten', 'tcp'], pass_fds=[w],
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    os.close(w)
    num = os.read(r, 20).decode().strip()
    os.environ.update(DISPLAY=':' + num, GDK_BACKEND='x11', GTK_A11Y='none',
                      NO_AT_BRIDGE='1', GIO_USE_VFS='local', GSETTINGS_BACKEND='memory')
    os.environ.pop('WAYLAND_DISPLAY', None)
    return p


class Hang(BaseException):
    pass


def alarm(*a):
    raise Hang()


def main():
    with open(sys.argv[1]) as f:
        data = json.load(f)
    mod = importlib.import_module('props.' + data['property'].lower())
    scen = next(s for s in mod.SCENARIOS if s.name == data['scenario'])
    server = display() if getattr(mod, 'NEEDS_DISPLAY', False) else None
    ctx = ConcreteCtx(data['values'], scen.n_ids)
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(60)
    try:
        scen.run(ctx)
    except ReplayVoid as e:
        print('REPLAY-VOID: assumption not met: %s' % e)
        code = 3
    except ReplayViolation as e:
        print('REPLAY-VIOLATION: %s' % e)
        code = 1
    except Hang:
        print('REPLAY-VIOLATION: does not terminate')
        code = 1
    except Exception:
        print('REPLAY-VIOLATION: unexpected exception\n' + traceback.format_exc())
        code = 1
    else:
        print('REPLAY-OK: not reproduced')
        code = 0
    print('history:')
    for t in ctx.trace:
        print('   ', t)
    sys.stdout.flush()
    if server is not None:
        server.kill()
    os._exit(code)


if __name__ == '__main__':
    main()
