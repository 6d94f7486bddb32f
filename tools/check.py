#!/usr/bin/env python3
"""usage: check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

exit 0: the property held on everything explored; 1: VIOLATION; 2: no answer"""
import argparse
import json
import os
import subprocess
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import common

MODULES = {
    "C01": "check_schema", "C02": "check_schema", "C03": "check_schema",
    "C04": "check_types",
    "C05": "check_shape", "C06": "check_graph",
    "C10": "check_serve", "C11": "check_serve", "C12": "check_serve", "C13": "check_serve", "C14": "check_serve", "C18": "check_serve",
    "C15": "check_client", "C16": "check_client",
    "C09": "check_calls",
    "C07": "check_module", "C08": "check_module", "C17": "check_module",
}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=common.env_seed())
    ap.add_argument("--replay")
    a = ap.parse_args()
    ctx = common.Ctx(a.property, a.tier, a.seed)
    mod = __import__(MODULES[a.property])
    try:
        if a.replay:
            with open(a.replay) as f:
                mod.replay(ctx, json.load(f))
        else:
            mod.run(ctx)
    except common.HarnessError as e:
        print("NO ANSWER property=%s: %s" % (a.property, e))
        return 2
    except subprocess.TimeoutExpired as e:
        print("NO ANSWER property=%s: timeout: %s" % (a.property, str(e)[:300]))
        return 2
    except Exception:
        traceback.print_exc()
        print("NO ANSWER property=%s" % a.property)
        return 2
    return common.finish(ctx)


if __name__ == "__main__":
    sys.exit(main())
