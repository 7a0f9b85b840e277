"""Front end: type-checks /repo's current OCaml sources in a scratch directory
and loads the compiler's typed syntax tree.  Nothing is executed."""
import json, os, shutil, subprocess, sys, tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = "/opt/cryptokit-deps"


class ToolError(Exception):
    """The machinery could not analyse the sources (neither pass nor violation)."""


def ocaml_env():
    e = dict(os.environ)
    e["PATH"] = DEPS + "/usr/bin:/usr/local/bin:/usr/bin:/bin"
    e["OCAMLPATH"] = DEPS + "/usr/lib/ocaml"
    e["CAML_LD_LIBRARY_PATH"] = DEPS + "/usr/lib/ocaml/stublibs"
    e["LC_ALL"] = "C.UTF-8"
    for k in ("OCAMLPARAM", "OCAMLRUNPARAM"):
        e.pop(k, None)
    return e


def run(cmd, cwd=None, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")


_cache = {}


def load_ocaml():
    """-> dict module name -> structure (JSON typed tree)"""
    if "oc" in _cache:
        return _cache["oc"]
    env = ocaml_env()
    d = tempfile.mkdtemp(prefix="verif-oc-")
    try:
        shutil.copy(os.path.join(VERIF, "tools", "dump.ml"), d)
        rc, o, e = run(["ocamlfind", "ocamlopt", "-w", "-a", "-package", "compiler-libs.common",
                        "-linkpkg", "dump.ml", "-o", "dump"], cwd=d, env=env)
        if rc:
            raise ToolError("cannot build the typed-tree dumper: " + e)
        w = os.path.join(d, "w")
        os.mkdir(w)
        mods = ["cryptokitBignum", "cryptokit"]
        for m in mods:
            for ext in (".mli", ".ml"):
                src = os.path.join(REPO, "src", m + ext)
                if not os.path.exists(src):
                    raise ToolError("source file missing: " + src)
                shutil.copy(src, w)
        for m in mods:
            for ext in (".mli", ".ml"):
                rc, o, e = run(["ocamlfind", "ocamlc", "-w", "-a", "-bin-annot", "-package",
                                "zarith,unix", "-c", m + ext], cwd=w, env=env)
                if rc:
                    raise ToolError("%s%s does not type-check: %s" % (m, ext, e))
        rc, o, e = run([os.path.join(d, "dump"), "cryptokitBignum.cmt", "cryptokit.cmt",
                        "cryptokit.cmti"], cwd=w, env=env)
        if rc:
            raise ToolError("dump failed: " + e)
        _cache["oc"] = json.loads(o)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return _cache["oc"]


def strip(uid):
    """'foo_123' -> 'foo'"""
    i = uid.rfind("_")
    if i > 0 and uid[i + 1:].isdigit():
        return uid[:i]
    return uid
