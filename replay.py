#!/usr/bin/env python3
"""replay.py FILE: run one counterexample on the unmodified code in /repo; exit 1 if it fails there."""
import os
import sys
import warnings
warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
sys.path = [p for p in sys.path if os.path.abspath(p or '.') not in (VERIF,)]
sys.path[:0] = [REPO, VERIF]


def main():
    import importlib
    import json
    import signal
    import traceback
    with open(sys.argv[1]) as fh:
        v = json.load(fh)
    from sx import capi
    mod = importlib.import_module('props.' + v['property'].lower())
    fn = getattr(mod, v['case'])
    s = capi.ConS(v['bounds'], v['env'])
    s.trace = True

    def alarm(*a):
        raise SystemExit('FAILED: does not terminate')
    signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(_Alarm()))
    signal.alarm(60)
    try:
        fn(s)
    except capi.ReplayFailed as e:
        print('replayed on %s: assertion fails: %s %s' % (REPO, e.label, e.detail))
        print('input: %s' % json.dumps(v['env'])[:1200])
        return 1
    except capi.Skip:
        print('assumption of the case does not hold')
        return 2
    except _Alarm:
        print('replayed on %s: does not terminate' % REPO)
        print('input: %s' % json.dumps(v['env'])[:1200])
        return 1
    except Exception:
        traceback.print_exc(limit=-4, file=sys.stdout)
        print('replayed on %s: unexpected exception' % REPO)
        print('input: %s' % json.dumps(v['env'])[:1200])
        return 1
    if v.get('finding') in [h[0] for h in s.hits]:
        print('replayed on %s: assertion fails: %s: %s' % (REPO, v['finding'], v['label']))
        print('input: %s' % json.dumps(v['env'])[:1200])
        return 1
    print('holds on this input')
    return 0


class _Alarm(BaseException):
    pass


if __name__ == '__main__':
    sys.exit(main())
