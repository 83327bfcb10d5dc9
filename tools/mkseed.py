#!/usr/bin/env python3
"""Builds /verif/seeded/<id>: applies an edit to a scratch copy of /repo, checks build, stable tests and demo. Usage: mkseed.py specs.py [id...]"""
import json, os, shutil, subprocess, sys
SEED = "/verif/seeded"; SC = "/tmp/seedrepo"
DEMO = '''#!/bin/bash
# exit 0 when the library behaves; run in the repository after its build
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
gcc -O1 -w %(flags)s -I src/include -I src/cipher "$d/demo.c" $(ls src/com/*.c src/pk/*.c src/digest/*.c src/cipher/*.c src/random/*.c 2>/dev/null | grep -v -e _x86 -e _arm64) -o "$t/demo" -lpthread || exit 99
cd "$t"; %(run)s
'''
def sh(c, **k): return subprocess.run(c, shell=True, **k)
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    for s in ns["SPECS"]:
        if sys.argv[2:] and s["id"] not in sys.argv[2:]: continue
        d = os.path.join(SEED, s["id"]); os.makedirs(d, exist_ok=True)
        sh("rm -rf /tmp/seedrepo; cp -a /repo /tmp/seedrepo")
        for f, o, n in s["edits"]:
            p = os.path.join(SC, f); t = open(p).read(); k = s.get("nth", 0)
            if t.count(o) < 1 or (t.count(o) > 1 and "nth" not in s): print(s["id"], "EDIT matches", t.count(o)); break
            parts = t.split(o); t = o.join(parts[:k + 1]) + n + o.join(parts[k + 1:]); open(p, "w").write(t)
        else:
            open(os.path.join(d, "patch.diff"), "w").write(subprocess.check_output("git -C %s diff" % SC, shell=True, text=True))
            open(os.path.join(d, "demo.c"), "w").write(s["demo"])
            open(os.path.join(d, "demo.sh"), "w").write(DEMO % {"flags": s.get("flags", ""), "run": s.get("run", "./demo")}); os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            a = sh("cd /repo && timeout 300 bash %s/demo.sh >/dev/null 2>&1" % d).returncode; b = sh("cd %s && timeout 300 bash %s/demo.sh > /tmp/sd/out 2>&1" % (SC, d)).returncode
            sh("git -C /repo apply %s/patch.diff" % d, check=True)
            try:
                t = sh("bash /opt/vp/build.sh >/tmp/sd/b 2>&1 && bash /opt/vp/test.sh /tmp/sd/out.json >/tmp/sd/t 2>&1").returncode
                miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open("/tmp/sd/out.json"))["passed"])
            finally: sh("git -C /repo checkout -q -- . && bash /opt/vp/build.sh >/dev/null 2>&1")
            print(s["id"], "demo clean", a, "patched", b, "build", t, "tests missing", sorted(miss)[:4], flush=True)
    sh("rm -rf /tmp/seedrepo")
main()
