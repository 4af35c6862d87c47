import importlib
import os
import sys

from contracts import core


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    chk = core.Check(pid, tier, seed)
    try:
        mod = importlib.import_module('props.' + pid.lower())
    except Exception:
        # the contracts name something this tree no longer has: nothing is decided
        import traceback
        chk.undecided.append('the contracts cannot be stated on this tree: ' + ' | '.join(traceback.format_exc().splitlines()[-4:]))
    else:
        mod.run(chk)
    sys.stdout.flush()
    rc = chk.finish()
    sys.stdout.flush()
    os._exit(rc)


main()
