#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property of /verif/properties.jsonl for the code in /repo's working tree:
TLC checks the specification modules the property rests on, the harness runs the real code
(on histories and schedules TLC generated, where the property is about those) and records
what happened, and TLC validates the record against the specification.

exit 0  everything explored is a behaviour the specification allows
exit 1  it is not: a line  VIOLATION property=<id> replay=<path>
exit 2  the machinery itself failed (never a verdict)
"""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
from plans import PLAN  # noqa: E402
from runner import Check, ToolError  # noqa: E402


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PLAN:
        print("usage: check.py <" + "|".join(sorted(PLAN)) + "> [quick|thorough]")
        return 2
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    c = Check(pid, tier, seed)
    try:
        PLAN[pid](c)
        return c.finish()
    except Exception as e:
        if not isinstance(e, ToolError):
            traceback.print_exc()
        if c.violations:            # what was already found stands
            return c.finish()
        print(f"ERROR {pid}: {e}")
        return 2
    finally:
        for p in (c.build_pool, c.model_pool, c.pool):
            p.shutdown(wait=False, cancel_futures=True)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
