#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/bugs.py and confirms each planted bug:
patch applies, builds, passes the tests, demo fails with it and passes without.
usage: seed.py [id ...]"""
import json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
import bugs
REPO = "/repo"
DEMO = """#!/bin/bash
# cwd: /repo (built).  exit 0: behaviour is right; nonzero: the property is broken
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
B=$PWD/_build/default/src
cp "$here/demo.ml" "$w/" && cd "$w" || exit 3
ocamlfind ocamlopt -package zarith,unix -linkpkg -I $B -I $B/.cryptokit.objs/byte -I $B/.cryptokit.objs/native \\
  $B/cryptokit.cmxa -ccopt -L$B demo.ml -o demo >log 2>&1 || { cat log; exit 3; }
timeout 200 ./demo
"""


DEMO_BC = DEMO.replace("ocamlopt", "ocamlc -custom").replace(" -I $B/.cryptokit.objs/native", "").replace("cryptokit.cmxa", "cryptokit.cma")

DEMO_C = """#!/bin/bash
# cwd: /repo.  exit 0: behaviour is right; nonzero: the property is broken
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
gcc -O1 -w -maes -mpclmul -mssse3 -mrdrnd -D__AES__ -I"$PWD/src" -I"$(ocamlfind ocamlc -where)" "$here/demo.c" -o "$w/demo" >"$w/log" 2>&1 || { cat "$w/log"; exit 3; }
timeout 200 "$w/demo"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def build():
    r = sh("bash /opt/vp/build.sh")
    return r.returncode == 0, r.stdout + r.stderr


def tests():
    sh("bash /opt/vp/test.sh /tmp/seed_o.json")
    d = json.load(open("/tmp/seed_o.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    return len(d["passed"]), len(d["failed"])


def main():
    want = sys.argv[1:]
    assert not sh("git -C %s status --porcelain" % REPO).stdout.strip(), "repo not clean"
    for b in bugs.BUGS:
        if want and b["id"] not in want:
            continue
        d = os.path.join(here, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(REPO, f)
                s = open(p).read()
                n = s.count(old)
                if n != 1:
                    raise SystemExit("%s: pattern occurs %d times in %s" % (b["id"], n, f))
                open(p, "w").write(s.replace(old, new))
            open(os.path.join(d, "patch.diff"), "w").write(sh("git -C %s diff" % REPO).stdout)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            open(os.path.join(d, "demo.sh"), "w").write(b.get("sh", DEMO_C.replace("-O1", "-O1 " + b.get("cflags", "")) if "c" in b else DEMO_BC if b.get("bytecode") else DEMO))
            if "c" in b:
                open(os.path.join(d, "demo.c"), "w").write(b["c"])
            if b.get("ml"):
                open(os.path.join(d, "demo.ml"), "w").write(b["ml"])
            for fn, txt in b.get("files", {}).items():
                open(os.path.join(d, fn), "w").write(txt)
            ok, log = build()
            if not ok:
                print(b["id"], "DOES NOT BUILD", log[-1500:])
                continue
            np, nf = tests()
            r = sh("bash %s/demo.sh" % d, cwd=REPO)
            bad = r.returncode
            checks = ""
            if "-c" in os.environ.get("SEED", ""):
                c = sh("bash %s/check.sh %s quick" % (here, b["property"]))
                checks = "check exit %d %s" % (c.returncode, c.stdout.strip().splitlines()[-1:] )
        finally:
            sh("git -C %s checkout -- ." % REPO)
        build()
        r2 = sh("bash %s/demo.sh" % d, cwd=REPO)
        good = r2.returncode
        okk = np == 556 and nf == 0 and bad not in (0, 3) and good == 0
        print(b["id"], b["property"], "OK" if okk else "REJECTED", "tests %d/%d" % (np, nf), "demo with=%d without=%d" % (bad, good), checks)
        if not okk:
            print(r.stdout[-500:], r.stderr[-500:], r2.stdout[-500:], r2.stderr[-500:])


main()
