#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N]   decide one property on /repo's working tree
check.py --replay FILE                              run a saved failing case again
Exit 0: held on everything explored. Exit 1 (+ VIOLATION line): broken. 2: the check itself could not run."""
import argparse, hashlib, json, os, shutil, subprocess, sys, tempfile, time, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = "g++"
FLAGS = ["-std=c++14", "-O1", "-g1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"]
if os.environ.get("VERIF_CXXFLAGS"): FLAGS += os.environ["VERIF_CXXFLAGS"].split()   # development only
LIBS = ["-lboost_thread", "-lboost_system", "-lpthread"]
LEVEL = "exploration"

sys.path.insert(0, HERE)
from targets import TARGETS, ASSUMPTIONS          # property -> harness, repo sources


def includes():
    return ["-I" + os.path.join(HERE, "stubs"), "-I" + os.path.join(HERE, "harness"), "-I" + os.path.join(REPO, "include"), "-I/usr/include/eigen3"]


def tree_hash(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        files = []
        if os.path.isfile(p):
            files = [p]
        else:
            for d, ds, fs in os.walk(p):
                ds.sort()
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def build(harness, sources, extra_flags=()):
    """compile the harness with the needed sources of the current tree; cached by content of everything that is read"""
    flags = FLAGS + list(extra_flags)
    key = tree_hash([os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(HERE, "harness"), os.path.join(HERE, "stubs")], " ".join([harness] + sources + flags))
    bdir = os.path.join(HERE, "build")
    os.makedirs(bdir, exist_ok=True)
    exe = os.path.join(bdir, "%s.%s" % (harness, key))
    with open(os.path.join(bdir, harness + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for old in os.listdir(bdir):
            if old.startswith(harness + ".") and not old.endswith(".lock"):
                if time.time() - os.path.getmtime(os.path.join(bdir, old)) > 7200:
                    os.unlink(os.path.join(bdir, old))
        tmp = tempfile.mkdtemp(prefix="obj.", dir=bdir)
        try:
            srcs = [os.path.join(HERE, "harness", harness + ".cpp"), os.path.join(HERE, "harness", "pbt_main.cpp")] + [f for f in (os.path.join(REPO, "src", s + ".cpp") for s in sources) if os.path.exists(f)]
            procs = []
            for i, s in enumerate(srcs):
                o = os.path.join(tmp, "%d.o" % i)
                procs.append((s, o, subprocess.Popen([CXX] + flags + includes() + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
            ok = True
            for s, o, p in procs:
                out = p.communicate()[0].decode(errors="replace")
                if p.returncode:
                    ok = False
                    print("compile error in %s:\n%s" % (s, out[:4000]), file=sys.stderr)
            if not ok:
                return None
            r = subprocess.run([CXX] + flags + [o for _, o, _ in procs] + ["-o", exe + ".tmp"] + LIBS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:                      # code may have moved to other files: offer all those which compile
                rest = [os.path.join(d, f) for d, _, fs in os.walk(os.path.join(REPO, "src")) for f in sorted(fs) if f.endswith(".cpp") and os.path.join(d, f) not in srcs]
                procs2 = []
                for i, s in enumerate(rest):
                    o = os.path.join(tmp, "r%d.o" % i)
                    procs2.append((o, subprocess.Popen([CXX] + flags + includes() + ["-c", s, "-o", o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
                objs = [o for o, p in procs2 if p.wait() == 0]
                subprocess.run(["ar", "rcs", os.path.join(tmp, "rest.a")] + objs, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                r = subprocess.run([CXX] + flags + [o for _, o, _ in procs] + [os.path.join(tmp, "rest.a"), "-o", exe + ".tmp"] + LIBS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                print("link error:\n" + r.stdout.decode(errors="replace")[:4000], file=sys.stderr)
                return None
            os.rename(exe + ".tmp", exe)
            return exe
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:hard_rss_limit_mb=4000:allocator_may_return_null=0:max_malloc_fill_size=65536:detect_stack_use_after_return=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    return e


def known_file():
    """known findings: lines 'known: property=<id> finding=<id> <what>' (and 'fixed: ...', which suppress nothing)"""
    known = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: "):
                f = dict(x.split("=", 1) for x in line.split()[1:3])
                known[(f["property"], f["finding"])] = line.split(None, 3)[3].strip()
    return known


def replay(path):
    r = json.load(open(path))
    t = TARGETS[r["property"]]
    exe = build(t["harness"], t["sources"])
    if not exe:
        return 2
    with tempfile.TemporaryDirectory() as tmp:
        if r["mode"] == "history":
            out = os.path.join(tmp, "o.json")
            print("history replay: cases %d..%d step %d of seed %d" % (r["from"], r["to"], r["step"], r["seed"]))
            return subprocess.run([exe, "--prop", r["property"], "--law", r["law"], "--seed", str(r["seed"]), "--history", "%d:%d:%d" % (r["from"], r["to"], r["step"]), "--tmp", tmp], env=env()).returncode
        f = os.path.join(tmp, "choices")
        open(f, "w").write("\n".join(str(c) for c in r["choices"]))
        return subprocess.run([exe, "--prop", r["property"], "--law", r["law"], "--replay", f, "--tmp", tmp], env=env()).returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    t = TARGETS[a.prop]
    exe = build(t["harness"], t["sources"])
    if not exe:
        print("check %s: the harness does not build against the current tree" % a.prop, file=sys.stderr)
        return 2
    if a.build_only:
        return 0
    tmp = tempfile.mkdtemp(prefix="verif.")
    try:
        out = os.path.join(tmp, "out.json")
        cap = 420 if a.tier == "quick" else 700
        r = subprocess.run([exe, "--prop", a.prop, "--tier", a.tier, "--seed", str(a.seed), "--out", out, "--tmp", tmp, "--jobs", str(a.jobs), "--scale", str(a.scale), "--cap", str(cap)], env=env())
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print("check %s: driver ended with status %d" % (a.prop, r.returncode), file=sys.stderr)
            return 2
        res = json.load(open(out))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    viol = res["violation"]
    lines, rc = [], 0
    known = known_file()
    for k in res["known"]:
        if not k["present"]:
            continue
        if (a.prop, k["id"]) in known:
            lines.append("KNOWN-FINDING: property=%s %s: %s" % (a.prop, k["id"], known[(a.prop, k["id"])]))
        elif not viol:
            viol = {"law": k["id"], "mode": "finding", "message": k["message"], "case": k["id"], "choices": []}
    if viol:
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        viol["property"] = a.prop
        path = os.path.join(rdir, "%s-%s.json" % (a.prop, viol["law"]))
        json.dump(viol, open(path, "w"), indent=1)
        lines.append("law: %s\ncase: %s\nfails: %s" % (viol["law"], viol.get("case", "")[:1500], viol.get("message", "")[:1500]))
        lines.append("VIOLATION property=%s replay=%s" % (a.prop, path))
        rc = 1
    for u in res["unreproducible"]:
        lines.append("note: a failure did not reproduce and is not reported: " + u)

    samples = []
    for l in res["laws"]:
        for s in l["samples"][:3]:
            samples.append({"law": l["law"], "case": s})
    ev = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": LEVEL,
        "coverage": {
            "evaluations": res["evaluations"], "distinct_nontrivial": res["distinct_nontrivial"],
            "rule": " || ".join("%s: %s" % (l["law"], l["rule"]) for l in res["laws"]),
            "samples": samples,
            "laws": [{k: l[k] for k in ("law", "evaluations", "discarded", "distinct_nontrivial", "planned", "labels", "wall_s")} for l in res["laws"]],
            "unreproducible": res["unreproducible"],
        },
        "assumptions": ASSUMPTIONS.get(a.prop, []) + ASSUMPTIONS["*"],
        "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", a.prop + ".json"), "w"), indent=1)
    for l in lines:
        print(l)
    print("%s %s seed %d: %d cases, %d distinct non-trivial, %d law(s), %.1f s -> %s" % (a.prop, a.tier, a.seed, res["evaluations"], res["distinct_nontrivial"], len(res["laws"]), ev["wall_s"], "VIOLATED" if rc else "held"))
    return rc


if __name__ == "__main__":
    sys.exit(main())
