#!/usr/bin/env python3
"""check.py <property> [quick|thorough] : decide one property on /repo's tree."""
import importlib, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from engine import model
from engine.ctx import Ctx, AnalysisBroken


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        mod = importlib.import_module('engine.rules.' + prop.lower())
        P = model.load(specs=getattr(mod, 'SPECS', ()))
        ctx = Ctx(prop, P, tier, seed)
        ctx.t0 = t0
        ctx.rule = ' '.join((mod.RULE if hasattr(mod, 'RULE') else mod.__doc__ or '').split())
        ctx.assumptions = list(getattr(mod, 'ASSUMPTIONS', []))
        mod.check(ctx)
        rc = ctx.finish()
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
        sys.exit(3)
    sys.exit(rc)


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    code = []

    def run():
        try:
            main()
        except SystemExit as e:
            code.append(e.code)
        except BaseException:
            traceback.print_exc()
            code.append(4)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(code[0] if code else 4)
