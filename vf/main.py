import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib
from core import *

NOTES = {}

TABLE = {
    **{p: "r1cs_schemes" for p in "P11 P12 P13 P14 P17 P18 P19 P20".split()},
    "P01": "r1cs", "P02": "r1cs",
    **{p: "gadgets" for p in "P03 P04 P05 P06 P07 P08 P09 P10".split()},
    "P25": "asvc", "P30": "asvc", "P26": "fs", "P27": "codec", "P28": "parallel", "P29": "blind",
    "P31": "cli", "P32": "curve", "P33": "contract", "P34": "setup", "P35": "digest", "P15": "plonk", "P16": "plonk",
    **{p: "gkr" for p in "P21 P22 P23 P24".split()},
}


def main():
    pid = sys.argv[1]
    mod = importlib.import_module(TABLE[pid])
    ctx = Ctx(pid)
    try:
        getattr(mod, pid.lower())(ctx)
    except Broken as e:
        ctx.violation(e.what, e.detail)
    except ToolError as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main())
