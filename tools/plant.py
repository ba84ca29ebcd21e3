#!/usr/bin/env python3
"""plant.py SPEC.py  -- turn bug descriptions into seeded/<id>/ and try them.
SPEC.py defines BUGS = [dict(id, property, path, edits=[(old,new)], demo, needs, breaks, flags='', src='')].
Each bug is applied to /repo's working tree, demonstrated, tested, checked, and undone."""
import json, os, runpy, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# exit 0 when the property holds, nonzero when it is broken (run in the repository, after the build)
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 0
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -include cstdint -O1 -g1 -w %(flags)s -I. -I/usr/include/mkl -DIL_MKL -DIL_BLAS "$d/demo.cpp" %(src)s -o "$t/demo" %(libs)s || exit 3
cd "$t" && timeout 60 ./demo
"""


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def main():
    spec = runpy.run_path(sys.argv[1])
    only = sys.argv[2:]
    for b in spec["BUGS"]:
        if only and b["id"] not in only:
            continue
        d = os.path.join(V, "seeded", b["id"])
        assert not run(["git", "-C", "/repo", "status", "--short"]).stdout.strip(), "dirty /repo"
        edits = b["edits"] if isinstance(b["edits"], list) else [b["edits"]]
        ok = True
        try:
            for e in edits:
                path, old, new = e if len(e) == 3 else (b["path"],) + tuple(e)
                p = os.path.join("/repo", path)
                s = open(p).read()
                nth = b.get("nth")
                if nth is None:
                    assert s.count(old) == 1, (b["id"], s.count(old), old)
                    s = s.replace(old, new)
                else:
                    parts = s.split(old)
                    assert len(parts) > nth + 1
                    s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
                open(p, "w").write(s)
            diff = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE).stdout
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "wb").write(diff)
            open(d + "/demo.cpp", "w").write(b["demo"])
            mk = "-lmkl_intel_lp64 -lmkl_core -lmkl_sequential -lpthread -lm -ldl" if b.get("mkl") else ""
            open(d + "/demo.sh", "w").write(DEMO % dict(flags=b.get("flags", "-fsanitize=address"), src=b.get("src", ""), libs=mk))
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            r = run([d + "/demo.sh"], cwd="/repo")
            msg = "demo:%s" % ("ok" if r.returncode not in (0, 3) else "BAD(%d)" % r.returncode)
            if r.returncode == 3:
                print(r.stdout[:2000])
            bl = run(["bash", "/opt/vp/build.sh"])
            run(["bash", "/opt/vp/test.sh", "/tmp/plant.json"])
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            try:
                res = set(json.load(open("/tmp/plant.json"))["passed"])
            except Exception:
                res = set()
            lost = base - res
            msg += " build:%d tests:%s" % (bl.returncode, "ok" if not lost else "LOST %d %s" % (len(lost), sorted(lost)[:3]))
            if os.path.exists("/tmp/plant.json"):
                os.unlink("/tmp/plant.json")
            t = time.time()
            c = run(["python3", "check.py", b["property"]], cwd=V)
            caught = c.returncode == 1 and "VIOLATION property=%s" % b["property"] in c.stdout
            msg += " check:%s (%.0fs)" % ("CAUGHT" if caught else "missed rc=%d" % c.returncode, time.time() - t)
            if c.returncode == 2:
                print(c.stdout[-1500:])
        finally:
            subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
        r = run([d + "/demo.sh"], cwd="/repo")
        msg += " clean-demo:%s" % ("ok" if r.returncode == 0 else "BAD %d %s" % (r.returncode, r.stdout[:500]))
        print(b["id"], msg, flush=True)
    run(["bash", "/opt/vp/build.sh"])


main()
