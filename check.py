#!/usr/bin/env python3
"""check.py PID            run the check of one property (VERIF_SEED, VERIF_TIER)
check.py PID --replay F   run the recorded violating case again"""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import core  # noqa: E402
import props  # noqa: E402


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in props.PROPS:
        print(__doc__, "known:", " ".join(props.PROPS))
        return 2
    pid = sys.argv[1]
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        replay = json.load(open(sys.argv[3]))["origin"]
        core.SEED = replay.get("seed", core.SEED)
    work = core.Work(pid)
    try:
        return props.run(pid, work, replay)
    except core.CheckError as e:
        print("CHECK FAILED:", e)
        return 3
    finally:
        if not os.environ.get("VERIF_KEEP"):
            work.cleanup()


sys.exit(main())
