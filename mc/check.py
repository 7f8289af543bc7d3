#!/usr/bin/env python3
"""python3 mc/check.py <property> [--tier quick|thorough] [--only layout]"""
import argparse
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    res = common.Result(a.prop, tier)
    try:
        import registry
        registry.run(a.prop, tier, res, a)
        sys.exit(res.finish())
    except common.CheckError as e:
        print("CHECK-ERROR", e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)


main()
