#!/usr/bin/env python3
"""seed.py SPEC.py [ID...]     turn planted-bug specifications into /verif/seeded/<id>/ and validate each in a scratch copy
   seed.py --validate [ID...]  validate the committed ones again (--check also runs the property's quick check against the scratch copy)
A SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo=<C++ text>, sources=[repo sources])]."""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]

DEMO = '''#!/bin/bash
# exit 0: the property holds on this input, otherwise it is broken
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
out="$(mktemp -d)"
trap 'rm -rf "$out"' EXIT
g++ -std=c++14 -O1 -g -w -DBOOST_BIND_GLOBAL_PLACEHOLDERS %(san)s-I"$here/stubs" -I"$repo/include" -I/usr/include/eigen3 "$here/demo.cpp" %(srcs)s -o "$out/demo" -lboost_thread -lboost_system -lpthread || exit 3
cd "$out" && timeout 120 ./demo
'''


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def scratch():
    d = tempfile.mkdtemp(prefix="seed.")
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    return d


def create(bug):
    d = scratch()
    try:
        r = d + "/repo"
        for f, old, new in bug["edits"]:
            p = os.path.join(r, f)
            raw = open(p, newline="").read()
            crlf = "\r\n" in raw
            s = raw.replace("\r\n", "\n")
            if s.count(old) != 1:
                print(bug["id"], "edit does not match once (%d) in %s:\n%s" % (s.count(old), f, old)); return False
            s = s.replace(old, new)
            open(p, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)
        diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True).stdout
        out = os.path.join(SEEDED, bug["id"])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "wb").write(diff)
        shutil.copytree(os.path.join(HERE, "stubs"), out + "/stubs")
        open(out + "/demo.cpp", "w").write(bug["demo"])
        san = "-fsanitize=address,undefined -fno-sanitize-recover=undefined " if bug.get("san") else ""
        open(out + "/demo.sh", "w").write(DEMO % dict(san=san, srcs=" ".join('"$repo/src/%s.cpp"' % s for s in bug.get("sources", []))))
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        return True
    finally:
        shutil.rmtree(d, ignore_errors=True)


def original_lines(patch):
    """every removed line must stem from the original commit"""
    bad = []
    f = None
    for line in open(patch, errors="replace"):
        if line.startswith("--- a/"):
            f = line[6:].rstrip("\r\n")
        m = re.match(r"@@ -(\d+)", line)
        if m:
            n = int(m.group(1)); continue
        if line.startswith("-") and not line.startswith("---"):
            b = run(["git", "-C", "/repo", "blame", "-l", "--root", "-s", "-L", "%d,%d" % (n, n), f]).stdout.split()[0].lstrip("^")
            bad.append(b[:39] == BASE[:39]); n += 1
        elif line.startswith(" "):
            n += 1
    return bad.count(True), bad.count(False)


def validate(id, check):
    src = os.path.join(SEEDED, id)
    d = scratch()
    try:
        r = d + "/repo"
        shutil.copytree(src, d + "/demo")
        for x in ("patch.diff", "meta.json"):
            os.unlink(d + "/demo/" + x)
        res = []
        a = run(["bash", d + "/demo/demo.sh"], cwd=r)
        res.append("clean demo %d" % a.returncode)
        b = run(["git", "-C", r, "apply", src + "/patch.diff"])
        if b.returncode: return id, "PATCH DOES NOT APPLY " + b.stdout, ""
        c = run(["bash", d + "/demo/demo.sh"], cwd=r)
        res.append("patched demo %d" % c.returncode)
        o, n = original_lines(src + "/patch.diff")
        res.append("original lines %d, own %d" % (o, n))
        # the registered build works on /repo only: compile the same things here
        t = run("cmake -S %s/h -B %s/b -G Ninja >/dev/null && ninja -C %s/b 2>&1 | tail -3 && (cd %s/b && ctest 2>&1 | tail -4)" % (d, d, d, d) if False else
                "g++ -std=c++14 -w -Iinclude -I%s/stubs -I/usr/include/eigen3 -c src/a_star/Node.cpp -o /dev/null && g++ -std=c++14 -w -Iinclude -I%s/stubs -I/usr/include/eigen3 -c src/a_star/OpenList.cpp -o /dev/null && "
                "g++ -std=c++14 -w -Iinclude tests/test_tmp_math.cpp -lgtest -lgtest_main -lpthread -o %s/t && %s/t >/dev/null" % (HERE, HERE, d, d), shell=True, cwd=r)
        res.append("build+tests %d" % t.returncode)
        ok = a.returncode == 0 and c.returncode not in (0, 3) and o > 0 and t.returncode == 0
        msg = ("ok   " if ok else "BAD  ") + ", ".join(res)
        if not ok: msg += "\n" + a.stdout[-1500:] + "\n--- patched\n" + c.stdout[-1500:] + t.stdout[-500:]
        if check:
            prop = json.load(open(src + "/meta.json"))["property"]
            e = dict(os.environ, VERIF_REPO=r)
            k = run([sys.executable, os.path.join(HERE, "check.py"), prop, "--tier", "quick"] , env=e, cwd=HERE)
            v = [l for l in k.stdout.splitlines() if "VIOLATION" in l or "error" in l]
            msg += " | check %s exit %d %s" % (prop, k.returncode, v[:1])
            if k.returncode == 1:
                w = [l for l in k.stdout.splitlines()]
                msg += "\n      " + "\n      ".join(x[:300] for x in w[-6:])
        return id, msg, c.stdout[-400:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    args = sys.argv[1:]
    check = "--check" in args
    args = [a for a in args if a != "--check"]
    if args and args[0] != "--validate":
        ns = {}
        exec(open(args[0]).read(), ns)
        ids = []
        for b in ns["BUGS"]:
            if args[1:] and b["id"] not in args[1:]: continue
            if create(b): ids.append(b["id"])
    else:
        ids = args[1:] or sorted(os.listdir(SEEDED))
    for i in ids:
        x = validate(i, check)
        print(x[0], x[1]); print("      demo says:", x[2].strip().replace("\n", " / ")[:300]); sys.stdout.flush()


main()
