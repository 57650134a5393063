"""Front end: runs the AST exporter over the current sources and merges the
translation units into one program."""
import hashlib
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo").rstrip("/") + "/"
LLVM = "/usr/lib/llvm-18"


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (an anchor vanished, the front end
    failed, ...).  Leads to an error exit, never to a verdict."""


def exporter():
    """Path of the built exporter; builds it when missing or outdated."""
    src = os.path.join(VERIF, "frontend", "astx.cc")
    with open(src, "rb") as f:
        tag = hashlib.sha256(f.read()).hexdigest()[:16]
    for d in (os.path.join(VERIF, "build"),):
        exe = os.path.join(d, "astx-" + tag)
        if os.access(exe, os.X_OK):
            return exe
        os.makedirs(d, exist_ok=True)
        tmp = exe + ".%d" % os.getpid()
        cmd = ["g++", "-std=c++17", "-O1", "-fno-rtti", "-I" + LLVM + "/include",
               src, "-o", tmp, "-L" + LLVM + "/lib", "-Wl,-rpath," + LLVM + "/lib",
               "-l:libclang-cpp.so.18.1", "-lLLVM-18"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("exporter does not build:\n" + r.stderr[-2000:])
        os.rename(tmp, exe)
        return exe
    raise AnalysisBroken("no exporter")


SKIP_DIRS = {"tests", "_build", ".git", "m4", "autom4te.cache"}


def sources():
    out = []
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in SKIP_DIRS)
        for f in sorted(files):
            if f.endswith((".cxx", ".cc", ".cpp", ".c")):
                out.append(os.path.relpath(os.path.join(base, f), REPO))
    return out


def export(rel, defines=()):
    is_c = rel.endswith(".c")
    cmd = [exporter(), REPO, REPO + rel, "--",
           "-std=gnu11" if is_c else "-std=gnu++17", "-x", "c" if is_c else "c++",
           "-I" + os.path.join(VERIF, "frontend", "include"),
           "-I" + REPO, "-I" + REPO + os.path.dirname(rel),
           "-resource-dir", LLVM + "/lib/clang/18", "-w",
           '-DVERSION="0"', '-DEXCEPT_DICT_DIR="/exceptdictdir"', "-UNDEBUG"] + list(defines)
    r = subprocess.run(cmd, capture_output=True)
    if r.returncode:
        raise AnalysisBroken("front end failed on %s:\n%s" % (rel, r.stderr.decode("utf8", "replace")[-2000:]))
    return r.stdout


class Program:
    def __init__(self, rels=None):
        self.digest = hashlib.sha256()
        self.fns = {}        # id -> function
        self.byname = {}     # qualified name -> [function]
        self.vars = {}       # gi -> var
        self.recs = {}       # tyName -> record
        self.enums = {}      # name -> [(const, value)]
        self.types = {}
        self.units = rels if rels is not None else sources()
        if not self.units:
            raise AnalysisBroken("no translation units")
        from concurrent.futures import ThreadPoolExecutor
        exporter()
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(export, self.units))
        for i, (rel, o) in enumerate(zip(self.units, objs)):
            self.digest.update(o)
            self._merge(i, rel, json.loads(o))
        self.subclasses = {}
        for r in self.recs.values():
            for b in r.get("bases", ()):
                self.subclasses.setdefault(self.types[b]["name"], []).append(r["id"])

    def _merge(self, tu, rel, o):
        self.types.update({k: v for k, v in o["types"].items()
                           if k not in self.types or "cat" in v})
        for e in o["enums"]:
            self.enums[e["n"]] = [tuple(c) for c in e["consts"]]
        for r in o["recs"]:
            old = self.recs.get(r["id"])
            if old is None or len(old.get("methods", ())) < len(r.get("methods", ())):
                self._retag(r, tu)
                self.recs[r["id"]] = r
        for v in o["vars"]:
            old = self.vars.get(v["gi"])
            if old is None or ("init" in v and "init" not in old):
                self._retag(v, tu)
                self.vars[v["gi"]] = v
        for f in o["fns"]:
            if f["id"] in self.fns:
                continue
            self._retag(f, tu)
            f["tu"] = rel
            f["name"] = f["f"]["n"]
            self.fns[f["id"]] = f
            self.byname.setdefault(f["name"], []).append(f)

    def _retag(self, n, tu):
        """Make declaration ids unique across units; give every node an id."""
        stack = [n]
        while stack:
            x = stack.pop()
            if isinstance(x, dict):
                d = x.get("d")
                if isinstance(d, int):
                    x["d"] = (tu, d)
                stack.extend(x.values())
            elif isinstance(x, list):
                stack.extend(x)

    # -- lookups ---------------------------------------------------------
    def fn(self, qname, pred=None):
        fs = [f for f in self.byname.get(qname, ()) if pred is None or pred(f)]
        if not fs:
            raise AnalysisBroken("function %s not found" % qname)
        return fs[0]

    def fns_named(self, qname):
        return self.byname.get(qname, [])

    def ty(self, t):
        return self.types.get(t) or {"cat": "other", "name": t}

    def cat(self, t):
        return self.ty(t).get("cat", "other")

    def bases_of(self, recname):
        """recname and its (transitive) base class type names."""
        out = [recname]
        r = self.recs.get(recname)
        if r:
            for b in r.get("bases", ()):
                out += self.bases_of(self.types[b]["name"])
        return out

    def fields_of(self, recname):
        out = []
        r = self.recs.get(recname)
        if r:
            for b in r.get("bases", ()):
                out += self.fields_of(self.types[b]["name"])
            out += r["fields"]
        return out

    def overrider(self, recname, methid):
        """Final overrider of virtual method `methid` in class recname."""
        for c in self.bases_of(recname):
            r = self.recs.get(c)
            if not r:
                continue
            for m in r.get("methods", ()):
                if m["id"] == methid or self._overrides(m, methid):
                    return m
        return None

    def _overrides(self, m, methid):
        for o in m.get("over", ()):
            if o == methid:
                return True
            for r in self.recs.values():
                for mm in r.get("methods", ()):
                    if mm["id"] == o and self._overrides(mm, methid):
                        return True
        return False


def walk(n):
    """All dict nodes of an exported tree, pre-order."""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if "k" in x:
                yield x
            stack.extend(reversed(list(x.values())))
        elif isinstance(x, list):
            stack.extend(reversed(x))


if __name__ == "__main__":
    p = Program()
    print(len(p.fns), "functions", len(p.vars), "vars", len(p.recs), "records", list(p.enums))
