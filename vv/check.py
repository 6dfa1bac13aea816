"""Entry point of every check:  python -m vv.check C01"""
from __future__ import annotations

import importlib
import sys
import traceback

from .tools import Check, Machinery


def main():
    prop = sys.argv[1]
    mod = importlib.import_module(f"vv.checks.{prop.lower()}")
    chk = Check(prop)
    try:
        mod.run(chk)
        return chk.finish()
    except Machinery as e:
        print(f"ERROR property={prop}: the check could not do its work\n{e}")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={prop}: the check could not do its work")
        return 2
    finally:
        chk.scratch.close()


if __name__ == "__main__":
    sys.exit(main())
