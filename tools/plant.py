#!/usr/bin/env python3
"""Confirm planted bugs and keep them under seeded/.

plant.py FILE   FILE is Python defining BUGS = [dict(id, prop, edits=[(file, old, new)],
                prog=text | demo=shell text, args=noja arguments, files={name: text}, needs, breaks)]
Works in a scratch copy of /repo; a bug is kept only when it builds, passes the
stable tests, and its demonstration tells the two trees apart."""
import json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/seed/repo"
ENV = dict(os.environ, HOME="/root", LANG="C.UTF-8", LC_ALL="C.UTF-8")


def sh(cmd, cwd=R, timeout=300):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "surrogateescape")


def fresh():
    os.makedirs("/tmp/seed", exist_ok=True)
    subprocess.run(["rm", "-rf", R])
    subprocess.run(["cp", "-a", "/repo", R], check=True)
    for f in ("runtests.py",):
        t = open("/opt/vp/" + f).read().replace("/repo", R)
        open("/tmp/seed/" + f, "w").write(t)


def build():
    return sh('make -j8 CC="gcc -MMD" OUTDIR=_build OBJDIR=_build/cache all')


def tests():
    sh("rm -f /tmp/seed/results.txt; python3 /tmp/seed/runtests.py /tmp/seed/results.txt")
    rc, out = sh("python3 /opt/vp/results.py /tmp/seed/res.json lines:/tmp/seed/results.txt", cwd="/tmp/seed")
    got = set(json.load(open("/tmp/seed/res.json"))["passed"])
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base["stable"]
    return [t for t in want if t not in got]


STD = """#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
got=$(timeout 60 ./_build/noja %s "$d/prog.noja" 2>&1 </dev/null; echo "exit $?")
got=${got//"$d/"/}
diff <(printf '%%s\\n' "$got") "$d/expected.txt"
"""


def plant(b):
    sh("git checkout -q -- .")
    rc, out = build()
    assert rc == 0, out
    d = os.path.join("/tmp/seed/out", b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for n, t in b.get("files", {}).items():
        open(os.path.join(d, n), "w").write(t)
    if "demo" in b:
        open(os.path.join(d, "demo.sh"), "w").write(b["demo"])
    else:
        open(os.path.join(d, "prog.noja"), "w").write(b["prog"])
        open(os.path.join(d, "demo.sh"), "w").write(STD % b.get("args", ""))
        rc, out = sh('timeout 60 ./_build/noja %s %s/prog.noja 2>&1 </dev/null; echo "exit $?"' % (b.get("args", ""), d))
        out = out.replace(d + "/", "")
        open(os.path.join(d, "expected.txt"), "w").write(out)
        if b.get("show"):
            print(out)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    rc, out = sh("bash %s/demo.sh" % d)
    if rc:
        return "demo fails on the unchanged tree: " + out[:600]
    for f, old, new in b["edits"]:
        p = os.path.join(R, f)
        t = open(p, newline="").read()
        if "\r\n" in t:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if t.count(old) != 1:
            return "%d places match %r in %s" % (t.count(old), old, f)
        open(p, "w", newline="").write(t.replace(old, new))
    rc, patch = sh("git diff")
    rc, out = build()
    if rc:
        return "does not build: " + out[-800:]
    bad = tests()
    if bad:
        return "fails stable tests: %s" % bad[:5]
    rc, out = sh("bash %s/demo.sh" % d)
    if rc == 0:
        return "demo passes with the change"
    if b.get("show"):
        print(out)
    open(os.path.join(d, "patch.diff"), "w", newline="", errors="surrogateescape").write(patch)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    dst = os.path.join(HERE, "seeded", b["id"])
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst)
    return "kept"


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    only = sys.argv[2:]
    fresh()
    for b in g["BUGS"]:
        if only and b["id"] not in only:
            continue
        try:
            print(b["id"], b["prop"], plant(b), flush=True)
        except subprocess.TimeoutExpired as e:
            print(b["id"], "TIMEOUT", e.cmd[:80], flush=True)
    subprocess.run(["rm", "-rf", R])


main()
