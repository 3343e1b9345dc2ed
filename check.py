#!/usr/bin/env python3
"""check.py <property id>      decide one property on /repo's working tree
   check.py --replay <file>    re-run a recorded violation and show what happens"""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import build, ctx as C, tlc


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        from vp import replay
        return replay.main(sys.argv[2])
    prop = sys.argv[1].upper()
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    mod = importlib.import_module("checks." + prop.lower())
    c = C.Ctx(prop, mod.LEVEL)
    try:
        try:
            build.build()
        except build.BuildError as e:
            print("ERROR: %s" % e)
            return 2
        mod.check(c)
    except tlc.TLCError as e:
        print("ERROR: %s" % str(e)[-4000:])
        c.scratch.close()
        return 2
    except Exception:
        traceback.print_exc()
        c.scratch.close()
        return 2
    from vp import runner
    for t, a in (runner.SLOW or [])[:20]:
        print('SLOW %.1f %s' % (t, ' '.join(a)))
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
