#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Builds the harnesses of one property against /repo's working tree, explores them
exhaustively within their bounds, and writes evidence/PROPERTY.json.
Exit 0: held on everything explored.  Exit 1: a line VIOLATION was printed.
Exit 2: no answer (the harness could not be built or run)."""
import argparse, hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("IL_REPO", "/repo")
BUILD = os.path.join(V, "build")
sys.path.insert(0, V)
from props import PROPS, MODES  # noqa: E402

GXX = "g++"


def dep_key(cmd, deps):
    h = hashlib.sha256("\0".join(cmd).encode())
    for d in deps:
        h.update(d.encode())
        try:
            with open(d, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
        except OSError:
            h.update(b"gone")
    return h.hexdigest()


def read_deps(path):
    try:
        t = open(path).read()
    except OSError:
        return None
    t = t.replace("\\\n", " ")
    t = t.split(":", 1)[1]
    return sorted(set(t.split()))


def compile_one(src, out, flags):
    """Compile one translation unit, reusing the object only if every byte it was made from is unchanged."""
    cmd = [GXX, "-c", src, "-o", out, "-MD", "-MF", out + ".d"] + flags
    deps = read_deps(out + ".d")
    if deps is not None and os.path.exists(out) and os.path.exists(out + ".key"):
        if open(out + ".key").read() == dep_key(cmd, deps):
            return None
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return "$ " + " ".join(cmd) + "\n" + r.stdout[:6000]
    with open(out + ".key", "w") as f:
        f.write(dep_key(cmd, read_deps(out + ".d")))
    return None


def build(pid, targets):
    """targets: list of dicts(src, mode, extra sources, libs, defs). Returns exe list."""
    d = os.path.join(BUILD, pid)
    os.makedirs(d, exist_ok=True)
    jobs, exes = [], []
    seen = {}
    for t in targets:
        mode = t.get("mode", "checked")
        flags = ["-std=c++17", "-include", "cstdint", "-I" + REPO, "-I/usr/include/mkl", "-DIL_MKL", "-DIL_BLAS",
                 "-I" + os.path.join(V, "lib"), "-w", "-g1", "-fno-omit-frame-pointer"] + MODES[mode] + t.get("defs", [])
        objs = []
        for s in [os.path.join(V, "harness", t["src"])] + [os.path.join(REPO, x) for x in t.get("repo_src", [])]:
            tag = hashlib.sha256((s + " ".join(flags)).encode()).hexdigest()[:8]
            o = os.path.join(d, os.path.basename(s).replace(".", "_") + "-" + mode + "-" + tag + ".o")
            objs.append(o)
            if o not in seen:
                seen[o] = 1
                jobs.append((s, o, flags))
        name = t.get("name") or (os.path.splitext(t["src"])[0] + "-" + mode)
        exe = os.path.join(d, name)
        link = [GXX] + objs + ["-o", exe] + [x for x in MODES[mode] if x.startswith("-fsanitize")] + t.get("libs", [])
        exes.append((name, exe, link, t))
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(lambda j: compile_one(*j), jobs) if e]
    if errs:
        return None, "\n".join(errs)

    def do_link(e):
        r = subprocess.run(e[2], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.stdout[:4000] if r.returncode else None
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(do_link, exes) if e]
    if errs:
        return None, "\n".join(errs)
    return exes, None


def child_env():
    env = dict(os.environ)
    env.update(LC_ALL="C.UTF-8", MKL_CBWR="COMPATIBLE", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1")
    for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "LSAN_OPTIONS", "MALLOC_PERTURB_"):
        env.pop(k, None)
    return env


def known_findings():
    out = []
    try:
        with open(os.path.join(V, "known-findings.txt")) as f:
            for line in f:
                line = line.strip()
                m = re.match(r"finding: property=(\S+) case=(\S+) (.*)", line)
                if m:
                    out.append(m.groups())
    except OSError:
        pass
    return out


def trim(t):
    out, skip = [], False
    for line in t.splitlines():
        if re.match(r"==\d+==ERROR", line):
            n = 0
            skip = True
            out.append(line)
            continue
        if skip:
            n += 1
            if n > 8 and not line.startswith(("SUMMARY", "FAILS")):
                continue
        out.append(line)
    return "\n".join(out)[-5000:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--suite", default="")
    ap.add_argument("--budget", type=float, default=float(os.environ.get("VERIF_BUDGET", "660")))
    a = ap.parse_args()
    pid = a.property
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    p = PROPS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    scratch = os.path.join(BUILD, pid, "scratch")
    os.makedirs(scratch, exist_ok=True)
    targets = p["targets"]
    exes, err = build(pid, targets)
    if err:
        print("BUILD FAILED for %s\n%s" % (pid, err))
        return 2
    if a.replay:
        r = json.load(open(a.replay))
        for name, exe, _, t in exes:
            if name == r["exe"]:
                return subprocess.run([exe, "--scratch", scratch, "--tier", r.get("tier", "quick"), "--replay", r["suite"],
                                       str(r["bound"]), r["choices"]], env=child_env()).returncode
        print("no such harness")
        return 2
    build_s = time.time() - t0
    suites, violation, error = [], None, None
    known = {(k[0], k[1]): k[2] for k in known_findings()}
    found = set()
    budget = a.budget
    for i, (name, exe, _, t) in enumerate(exes):
        out = os.path.join(scratch, name + ".json")
        if os.path.exists(out):
            os.unlink(out)
        cmd = [exe, "--tier", a.tier, "--out", out, "--scratch", scratch]
        if a.suite:
            cmd += ["--suite", a.suite]
        if a.tier == "thorough":
            left = budget - (time.time() - t0 - build_s)
            cmd += ["--budget", "%.0f" % max(20.0, left / (len(exes) - i))]
        print("[%s] %s" % (pid, name), flush=True)
        sys.stderr.flush()
        r = subprocess.run(cmd, env=child_env(), cwd=scratch)
        try:
            j = json.load(open(out))
        except Exception as e:  # noqa
            error = "%s gave no result (exit %s): %s" % (name, r.returncode, e)
            break
        for s in j["suites"]:
            s["harness"] = name
            suites.append(s)
        for f in j.get("findings", []):
            if (pid, f["case"]) in known:
                found.add(f["case"])
            elif not violation:
                violation = dict(f, exe=name, property=pid, tier=a.tier)
        if violation:
            break
        if "violation" in j:
            violation = dict(j["violation"], exe=name, property=pid, tier=a.tier)
            break
        if "error" in j:
            error = j["error"]
            break
    ex = sum(s["executions"] for s in suites)
    tr = sum(s["transitions"] for s in suites)
    st = sum(s["states"] if s["states"] else s["transitions"] for s in suites)
    complete = bool(suites) and all(s["complete"] and not s["table_full"] for s in suites) and not violation and not error
    samples = ["%s/%s: all decision sequences at bound %d (%d executions, %d states, %d transitions%s)" % (
        s["harness"], s["name"], s["bound"], s["executions"], s["states"] or s["transitions"], s["transitions"],
        ", bound %d started but capped" % s["capped_at_bound"] if s["capped_at_bound"] else "") for s in suites]
    level = p.get("level", "model_checking")
    cov = {"states": st, "transitions": tr, "traces_validated_against_impl": ex, "samples": samples, "exhaustive": complete,
           "oracle_checks": sum(s["checks"] for s in suites),
           "state_rule": "distinct canonical states where the harness declares them, otherwise nodes of the decision tree; "
                         "every transition and trace is an execution of the real code"}
    if level == "fault_enumeration":
        cov["evaluations"] = ex
        cov["distinct_nontrivial"] = sum(s["executions"] - s["prunes"] for s in suites)
        cov["rule"] = p.get("rule", "each execution is one distinct decision sequence (content, fault kind, fault position)")
    ev = {"property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": cov,
          "assumptions": p.get("assumptions", []) + ["64-bit state hashing and the bounds named in samples"],
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("[%s] %s tier: build %.1fs, total %.1fs, executions %d, states %d, transitions %d, exhaustive within bounds: %s" % (
        pid, a.tier, build_s, time.time() - t0, ex, st, tr, complete))
    for k in sorted(found):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[pid, k]))
    if violation:
        rd = os.path.join(V, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s.json" % (pid, re.sub(r"[^A-Za-z0-9]+", "_", violation["exe"] + "_" + violation["suite"])))
        with open(path, "w") as f:
            json.dump(violation, f, indent=1)
        print("--- counterexample (suite %s): %s" % (violation["suite"], violation["msg"]))
        for name, exe, _, t in exes:
            if name == violation["exe"]:
                try:
                    r = subprocess.run([exe, "--scratch", scratch, "--tier", a.tier, "--replay", violation["suite"], str(violation["bound"]),
                                        violation["choices"]], env=child_env(), cwd=scratch, stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, timeout=200)
                    print(trim(r.stdout.decode("utf-8", "replace")))
                except subprocess.TimeoutExpired:
                    pass
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if error:
        print("ERROR: " + error)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
