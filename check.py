#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   or   check.py --replay FILE"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True


def main():
    import core, props
    if sys.argv[1] == "--replay":
        return core.replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    ck = core.Check(prop, tier, core.SEED)
    props.CHECKS[prop](ck)
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
