#!/usr/bin/env python3
"""check.py --property ID [--tier quick|thorough]

exit 0: the property holds on everything analysed; 1: violation; 2: no verdict."""
import argparse, importlib, os, signal, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import core


BUDGET = 720     # seconds of analysis
AFTER = 60       # seconds of further analysis once a violation is known


class Stop(BaseException): pass


def stop(*a): raise Stop()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import registry
    mod, fname = registry.CHECKS[a.property]
    signal.signal(signal.SIGALRM, stop); signal.alarm(BUDGET)
    m = importlib.import_module('props.' + mod)
    rep = core.Report(a.property, a.tier, seed)
    rep.first = lambda: signal.alarm(max(1, min(AFTER, signal.alarm(0))))
    try:
        f = getattr(m, fname)
        wit = getattr(f, 'witness', ())
        prog = core.load_program(wit, **getattr(f, 'load', {}))
        f(core.Ctx(rep, prog))
    except core.CompileError as x:
        if getattr(f, 'compiles', None) and os.sep + 'witness' + os.sep in x.path:
            err = next((l for l in x.out.splitlines() if ' error: ' in l), '')
            rep.obligation('accepted', False)
            rep.violation('accepted', f.compiles, 'a program which uses it does not compile: %s' % err.split(' error: ')[-1], err.split(' error: ')[0])
        elif not rep.viol:
            print('%s does not compile:\n%s' % (x.path, x.out[-3000:])); return 2
    except Stop:
        if not rep.viol: rep.undecided('budget', 'the analysis was stopped after %d s' % BUDGET)
    except core.Broken as x:
        if not rep.viol:
            print('no verdict: %s' % x); return 2
    except Exception:
        traceback.print_exc()
        if not rep.viol:
            if not rep.obl: return 2
            rep.undecided('analysis', 'the analysis stopped early: %s' % traceback.format_exc().strip().splitlines()[-1])
    signal.alarm(0)
    return core.finish(rep)


if __name__ == '__main__':
    sys.exit(main())
