"""Robustness driver: mut.py FILE [name..]: FILE defines MUTS = [(name, {checks expected to alarm, or () for quiet},
checks to run, [(file, old, new)...])]. Copies /repo's sources, edits, runs the checks with VERIF_REPO."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]


def one(m):
    name, exp, run, edits = m
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        subprocess.run("cp -a /repo/. %s/" % d, shell=True, check=True)
        for f, old, new in edits:
            p = os.path.join(d, "src", f)
            s = open(p).read()
            if s.count(old) < 1:
                return "%-34s EDIT DOES NOT APPLY %s" % (name, f)
            open(p, "w").write(s.replace(old, new, 1))
        out = []
        for c in run:
            e = dict(os.environ, VERIF_REPO=d, VERIF_EVID=os.path.join(d, "ev"))
            r = subprocess.run(["bash", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "check.sh"), c], env=e, capture_output=True, text=True)
            want = 1 if c in exp else 0
            tag = "ok" if r.returncode == want else "** WRONG rc=%d **" % r.returncode
            ne = " NOT-EXPLORED" if "NOT-EXPLORED" in r.stdout and name != "base" else ""
            lines = [l for l in r.stdout.splitlines() if "[" in l or "NOT-EX" in l or "ERROR" in l]
            out.append("%s %s%s %s" % (c, tag, ne, (lines[0].strip()[:170] if lines and (want or r.returncode or ne) else "")))
        return "%-34s %s" % (name, "\n      ".join(out))
    finally:
        shutil.rmtree(d)


ms = [m for m in ns["MUTS"] if not only or any(o in m[0] for o in only)]
with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
    for r in ex.map(one, ms):
        print(r, flush=True)
