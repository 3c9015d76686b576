#!/usr/bin/env python3
"""Runs the case in a replay file again: replay.py FILE

Exit status 1 if it still fails, 0 if it does not.
"""

import json
import os
import shutil
import sys
import tempfile

import check


def main():
    with open(sys.argv[1]) as f:
        d = json.load(f)
    b = d["build"]
    tmp = tempfile.mkdtemp(prefix="rescan-replay-")
    try:
        build = check.Build("replay", b["profile"], b["features"], b["hooks"], b["guided"])
        build.run(tmp)
        if not build.binary:
            print(build.output)
            return 2
        check.use_vocabulary(d.get("words", ""), tmp)
        if "worker" in d:
            mode, seed, shard, n = d["worker"]
            w = check.Worker(build, d["property"], d["tier"], seed, shard, n,
                             os.path.join(tmp, "out"), mode)
            w.start()
            code = w.proc.wait()
            r = w.result() or {}
            print(r.get("failure"), w.stderr())
            return 0 if code == 0 else 1
        try:
            m, case = check.run_case(build, d["property"], d["check"], d["choices"], tmp,
                                     timeout=check.HANG)
        except check.subprocess.TimeoutExpired:
            print(f"the case does not end within {check.HANG} s")
            return 1
        if m is None:
            print("the case passes")
            return 0
        print(m)
        if case:
            print(case["notes"])
        return 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
