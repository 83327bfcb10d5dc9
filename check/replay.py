#!/usr/bin/env python3
"""Replays a recorded counterexample against /repo's current sources:  replay.py FILE  (FILE.info lies beside it)."""
import json, os, shutil, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import run
def main():
    p = sys.argv[1]; i = json.load(open(p + ".info")); os.makedirs(run.BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="replay-", dir=run.BUILD)
    try:
        ctx = run.Ctx(work); job = run.Job(i["property"], "replay", i["harness"], cfg=i["config"], defs=i["defines"])
        k, m, obs = run.replayOnce(run.nativeBuild(ctx, job, i["stack_init"]), p, i["heap_fill"])
        print("%s: %s" % (i["claim"], k)); print(m)
        for o in obs: print("  observed", *o)
        return 1 if k == "violation" else 0
    finally: shutil.rmtree(work, ignore_errors=True)
if __name__ == "__main__": sys.exit(main())
