#!/usr/bin/env python3
"""check.py ID -- decide one property of /repo's current working tree by static analysis"""
import os, sys, time, gc
CHK = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(CHK, 'sa'), os.path.join(CHK, 'checks')]
gc.set_threshold(200000, 50, 50)
from core import *
import importlib
from reg import PROPS


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    t0 = time.time()
    for f in sorted(os.listdir(os.path.join(CHK, 'checks'))):
        if f.endswith('.py') and f != 'reg.py':
            importlib.import_module(f[:-3])
    m = dump()
    rep = Rep(pid)
    rep.tier = tier
    fn = PROPS[pid]
    try:
        fn(m, rep)
    except (Missing, LookupError, Budget) as e:
        # fail closed: an anchor that is gone or a function the analysis cannot finish is not a proof
        rep.ob('undecided', False, f'{type(e).__name__}: {e}')
    except Exception as e:
        import traceback
        sys.stderr.write(traceback.format_exc()[-3000:])
        rep.ob('undecided', False, f'analysis stopped: {type(e).__name__}: {e}')
    return finish(rep, ' '.join((fn.__doc__ or '').split()), tier, t0,
                  ['rustc MIR export, the abstract semantics in sa/ and its models of std and of the algorithm crate'])


if __name__ == '__main__':
    sys.exit(main())
