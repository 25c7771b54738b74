#!/usr/bin/env python3
"""check.py PROPERTY: decide one property for the code now in /repo."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core


def table():
    from vlib import codec, idl, gen, cli
    t = {"C%02d" % i: getattr(codec, "c%02d" % i) for i in range(1, 14)}
    t.update({"C%02d" % i: getattr(idl, "c%02d" % i) for i in range(14, 18)})
    t.update({"C%02d" % i: getattr(gen, "c%02d" % i) for i in range(18, 24)})
    t["C24"] = cli.c24
    t.update({"C25": gen.c25, "C26": gen.c26})
    return t


def main():
    prop = sys.argv[1]
    try:
        check = core.Check(prop)
        table()[prop](check)
        sys.exit(check.finish())
    except core.ToolError as e:
        print("ERROR: %s" % e)
        sys.exit(2)
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        sys.exit(2)


if __name__ == "__main__":
    main()
