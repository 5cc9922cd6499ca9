#!/opt/veriftools/pyvenv/bin/python
"""run.py <property id> [quick|thorough]   |   run.py harness <name> args..."""
import importlib, os, sys, traceback
if 'PYTHONHASHSEED' not in os.environ:
    # the same run every time
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from dv import check
    mod = importlib.import_module('contracts.' + pid)
    ctx = check.Ctx(pid, tier, seed)
    try:
        mod.verify(ctx)
    except check.Enough:
        ctx.notes.append('stopped after %d failed obligations' % ctx.nfail)
    except check.ExtractError as e:
        ctx.unreached['(extraction)'] = str(e)[:2000]
    except (check.Unsupported,) as e:
        ctx.unreached['(setup)'] = str(e)[:2000]
    except Exception as e:
        if os.environ.get('DV_DEBUG'):
            traceback.print_exc()
        ctx.unreached['(setup)'] = 'engine: %s %s' % (type(e).__name__, e)
    return check.finish(ctx, mod.HARNESSES, getattr(mod, 'LEVEL', 'proof'))


rc = []
th = threading.Thread(target=lambda: rc.append(main()))
th.start()
th.join()
sys.stdout.flush()
os._exit(rc[0] if rc else 2)
