"""C14: the pronunciation graph is the same seen from either end of its edges.

The members of the graph classes are interpreted abstractly.  The two
containers of a graph object are unknown; what the code looks up, adds and
erases is logged, and the log (a regular language when there are loops) is run
against monitors that say what each operation must do to both of them.
"""
import engine
import prog
from common import Report
from dom import I, sym, aff_add
from engine import St, unk
from outcheck import adopt
from prog import AnalysisBroken
from seq import Seq, name

VOID = ("c", None)
LOG = ("log",)


class GWorld:
    """Engine for the members of one graph class."""

    def __init__(self, p, cls):
        self.p = p
        self.cls = cls
        self.e = engine.Engine(p)
        self.e.unroll = 8
        self.seq = Seq(self.e, self.elem)
        self.seq.mmap = self.mmap
        self.seq.factfn = self.fact
        self.seq.onreturn = self.leaving
        self.pars = {}
        self.val = p.ty(cls)["targs"][0] if p.ty(cls).get("targs") else None
        fs = self.e.fieldtypes(cls)
        self.maps = [i for i, (n, t) in enumerate(fs) if self.e.lib.base(p.ty(t).get("name") or "") in self.e.lib.MMAPS]
        if len(self.maps) != 2 or len(fs) != 2:
            raise AnalysisBroken("%s does not hold two multimaps" % cls)
        for op in ("operator==", "operator!="):
            self.e.hooks["%s::%s" % (self.val, op)] = self.equal
        self.role = None

    # -- values ------------------------------------------------------------------
    def graph(self, who):
        return ("r", self.cls, tuple(("gmm", (who, i)) for i in range(2)))

    def edge(self, tgt, val):
        """Value of the struct stored in the containers: target and value."""
        t = [x for x in self.p.recs if x.startswith("DAGEdge<") and x[8:-1] == self.val]
        if not t:
            raise AnalysisBroken("no edge record for %s" % self.val)
        fs = self.e.fieldtypes(t[0])
        ints = [n for n, ft in fs if self.p.ty(ft).get("cat") == "int"]
        if len(fs) != 2 or len(ints) != 1:
            raise AnalysisBroken("edge record has another shape")
        return ("r", t[0], tuple(tgt if n in ints else val for n, ft in fs))

    def parts(self, v):
        """(target, value) of an edge record."""
        if v[0] != "r" or not v[1].startswith("DAGEdge<"):
            return None
        fs = self.e.fieldtypes(v[1])
        t = [x for (n, ft), x in zip(fs, v[2]) if self.p.ty(ft).get("cat") == "int"]
        o = [x for (n, ft), x in zip(fs, v[2]) if self.p.ty(ft).get("cat") != "int"]
        return (t[0], o[0]) if len(t) == len(o) == 1 else None

    def elem(self, eng, st, t, nm):
        X = nm[1]
        key = X[1][2]
        if key == "all":
            key = sym(("key", nm))
        return [(st, ("r", "std::pair<>", (key, self.edge(sym(("tgt", nm)), ("opq", ("val", nm))))))]

    def ident(self, v):
        return v[1] if v[0] == "opq" else None

    def equal(self, eng, st, node, obj, args, fn):
        """Equality of edge values is a free predicate of the two values."""
        a, b = eng.read(st, obj), eng.val(st, args[0])
        if a[0] != "opq" or b[0] != "opq":
            return None
        neg = fn["n"].endswith("!=")
        if a == b:
            return [(st, ("c", not neg))]
        s = ("veq",) + tuple(sorted((a[1], b[1]), key=repr))
        out = []
        d = st.dom.get(s, 3)
        for bit, r in ((1, True), (2, False)):
            if d & bit:
                q = st.fork()
                q.dom[s] = bit
                out.append((q, ("c", r != neg)))
        return out

    def fact(self, st, X, k=0):
        """How the element compares with the arguments of the operation."""
        out = []
        nm = name(X, k)
        for pn, pv in self.pars.items():
            if pv[0] == "l":
                d = aff_add(sym(("tgt", nm)), pv, -1)
                lo, hi = self.e.lo(st, d), self.e.hi(st, d)
                r = True if lo == 0 == hi else False if lo is not None and lo > 0 or hi is not None and hi < 0 else None
            else:
                s = ("veq",) + tuple(sorted((("val", nm), pv[1]), key=repr))
                r = {1: True, 2: False}.get(st.dom.get(s, 3))
            out.append((pn, r))
        return tuple(out)

    def leaving(self, st, d):
        """Log what is known of the elements a pass has stopped at."""
        for r in list(st.store):
            if r[:2] == ("gst", "seq") and r[2][0] == "L" and r[2][1][0] == "mm" and self.seq.state(st, r[2])[1] == "n":
                if ("gst", "at", r[2]) not in st.store:
                    f = self.fact(st, r[2])
                    if any(x is not None for _, x in f):
                        st.store[("gst", "at", r[2])] = ("c", True)
                        self.seq.log(st, ("at", r[2], f))

    # -- the containers -------------------------------------------------------------
    def range(self, st, role, key):
        n = 0
        while ("gst", "seq", ("L", ("mm", role, key, n), "edge")) in st.store:
            n += 1
        X = ("L", ("mm", role, key, n), "edge")
        self.seq.setstate(st, X, 0, "?")
        return X

    def mmap(self, st, e, m, o, v, args, f):
        eng = self.e
        role = v[1]
        a = [eng.val(st, x) for x in args]
        if m == "equal_range":
            X = self.range(st, role, a[0])
            return [(st, ("r", "std::pair<>", (("git", X, 0), ("gend", X))))]
        if m in ("begin", "cbegin", "end", "cend"):
            X = ("L", ("mm", role, "all", 0), "edge")
            if m[-3:] == "end":
                return [(st, ("gend", X))]
            adv, end = self.seq.state(st, X)
            return [(st, ("git", X, 0 if adv == 0 else "b"))]
        if m == "count":
            return [(st, sym(("cnt", role, a[0])))]
        if m in ("emplace", "insert") and a:
            if len(a) == 1 and a[0][0] == "r" and a[0][1].startswith("std::pair"):
                a = list(a[0][2])
            if len(a) == 2:
                x = self.parts(a[1])
                if x:
                    self.seq.log(st, ("add", role, a[0]) + x)
                    return [(st, unk("iterator to the new edge"))]
        if m == "erase" and len(a) == 1:
            if a[0][0] == "git" and isinstance(a[0][2], int) and a[0][1][1][1] == role:
                if not self.seq.alive(st, e, a[0]):
                    return []
                return self.seq.erase(st, e, a[0])
            if a[0][0] == "git":
                self.e.oblige("iterator-dead", e, st, a[0][1][1][1] == role, "erases with an iterator of another container")
        if m == "operator=" and a and a[0][0] == "gmm":
            eng.write(st, o, a[0])
            return [(st, o)]
        if m == "clear":
            self.seq.log(st, ("clear", role))
            return [(st, VOID)]
        if m == "empty":
            X = ("L", ("mm", role, "all", 0), "edge")
            return [(s2, ("c", b)) for s2, b in self.seq.atend(st, X)]
        return None

    # -- running ------------------------------------------------------------------------
    def find(self, n, pt=None, ctor=False):
        out = []
        for f in self.p.fns.values():
            i = f["f"]
            if i.get("crec") == self.cls and i["n"].split("::")[-1] == n and bool(f.get("ctor")) == ctor and f.get("b"):
                if pt is None or list(i["pt"]) == pt:
                    out.append(f)
        return out

    def call(self, f, who="g"):
        """Run a member on an unknown graph with unknown arguments."""
        st = St()
        st.store[LOG] = ("T", ())
        root = ("t", 0, "self")
        st.store[root] = self.graph(who)
        args = []
        self.pars = {}
        for i, p in enumerate(f["ps"]):
            t = p["t"].replace("const ", "").lstrip("&")
            ty = self.p.ty(t)
            n = "arg%d" % i
            if ty.get("cat") == "int":
                v = sym(("par", n))
                self.pars[n] = v
                args.append(v)
                continue
            r = ("t", 0, n)
            if t == self.val:
                v = ("opq", ("par", n))
                self.pars[n] = v
            elif t == self.cls:
                v = self.graph("other")
            else:
                v = unk("argument")
            st.store[r] = v
            args.append(("ref", r, ()) if p["t"].startswith("&") else v)
        return self.e.invoke(st, f, args, ("ref", root, ()), {"l": "entry", "k": "mcall"}), root


class Mon:
    """Follows passes over key ranges of the two containers and what is added
    and erased on the way.

    want: ((role, key, facts that make an edge the one meant), ...)"""

    def __init__(self, w, want, adds, erase, ret):
        self.w = w
        self.want = want
        self.adds = adds          # additions that must be made
        self.erase = erase        # None, "one" or "all"
        self.ret = ret

    def start(self):
        # per range: (state, owed, matched)  state: new / open / done / hit
        return (tuple(("new", 0) for _ in self.want), frozenset(), False, False)

    def which(self, X):
        if X[0] != "L" or X[1][0] != "mm":
            return None
        for i, (role, key, fs) in enumerate(self.want):
            if X[1][1] == role and X[1][2] == key:
                return i
        return -1

    def match(self, i, fact):
        """True, False or None (not known) for an element of range i."""
        d = dict(fact)
        vals = [d.get(k) for k in self.want[i][2]]
        if False in vals:
            return False
        return True if all(vals) else None

    def step(self, s, t):
        rs, added, erased, known = s
        if t[0] == "#m":
            i = self.which(t[1])
            if i is None:
                return s
            if i < 0:
                return "looks through the edges of another node than the one meant"
            mode, pend = rs[i]
            mt = self.match(i, t[2])
            if mode == "owed":
                return "an edge that should be removed is left in one of the two directions"
            if pend == "er":
                # erased at the front, facts are known now
                r = self.erasing(mt)
                if isinstance(r, str):
                    return r
                return self.put(s, i, ("hit" if self.erase == "one" else "open", 0), True)
            if mt is None:
                return "passes over an edge without having compared it"
            if mt:
                if self.erase is None:
                    return "passes over the edge it looks for"
                return self.put(s, i, ("owed", 0))
            return self.put(s, i, ("hit" if mode == "hit" else "open", 0))
        if t[0] == "er":
            i, k = self.which(t[1]), t[2]
            if i is None or i < 0:
                return "removes an edge of another node than the one meant"
            if self.erase is None:
                return "removes an edge"
            mode, pend = rs[i]
            if k == -1:
                if mode == "owed":
                    return self.put(s, i, ("hit" if self.erase == "one" else "open", 0), True)
                return "removes an edge that is not the one meant"
            if k == 0:
                return self.put(s, i, (mode, "er"))
            return "UNKNOWN: erases further back"
        if t[0] == "at":
            i = self.which(t[1])
            if i is not None and i >= 0 and self.match(i, t[2]):
                if self.erase:
                    return s[:3] + (True,)
                return self.put(s, i, ("hit", 0))
            return s
        if t[0] == "#end":
            i = self.which(t[1])
            if i is None or i < 0:
                return s
            mode, pend = rs[i]
            if mode == "owed":
                return "an edge that should be removed is left in one of the two directions"
            return self.put(s, i, ("hit" if mode == "hit" else "done", 0))
        if t[0] == "add":
            if t[1:] in added:
                return "adds an edge twice in one direction"
            if t[1:] not in self.adds:
                return "adds something else than the edge given (%s)" % (show(t[1:]),)
            return (rs, added | {t[1:]}, erased, known)
        if t[0] == "clear":
            return "empties the graph"
        return "UNKNOWN: %s" % (t[0],)

    def erasing(self, mt):
        if mt is None:
            return "removes an edge without having compared its end and its value"
        if not mt:
            return "removes an edge that is not the one meant"
        return None

    def put(self, s, i, v, er=None):
        rs = list(s[0])
        rs[i] = v
        return (tuple(rs), s[1], s[2] or bool(er), s[3])

    def final(self, s):
        rs, added, erased, known = s
        modes = []
        for i, (mode, pend) in enumerate(rs):
            if mode == "owed":
                return "an edge that should be removed is left in one of the two directions"
            modes.append(mode)
        if self.erase:
            if {"hit", "done"} == set(modes) and self.erase == "one":
                return None            # cannot be: found from one end only
            if "done" in modes and not erased and not known:
                return None if not self.ret else "tells that an edge was removed when none was"
            for mode in modes:
                if mode not in ("hit", "done"):
                    return "does not look through all edges in both directions"
            if known and "done" in modes:
                return None            # cannot be: found before
            if self.ret is not None and self.ret != erased:
                return "tells %s when an edge was %sremoved" % (self.ret, "" if erased else "not ")
            return None
        if added and added != self.adds:
            return "adds the edge in one direction only"
        hit = "hit" in modes
        if hit and added:
            return "adds an edge that is there already"
        if self.adds and not hit and not added:
            return "does not add an edge that is missing"
        if not hit and "done" not in modes:
            return "does not look through all edges of the node"
        if self.ret is not None:
            if self.adds and self.ret != bool(added):
                return "tells %s when the edge was %sadded" % (self.ret, "" if added else "not ")
            if not self.adds and self.ret != hit:
                return "tells %s when the edge is %s" % (self.ret, "there" if hit else "not there")
        return None


def show(t):
    return ", ".join(str(x[1]) if isinstance(x, tuple) and len(x) > 1 else str(x) for x in t)


class Each:
    """One call for each edge of the other graph."""

    def __init__(self, X, tok):
        self.X, self.tok = X, tok

    def start(self):
        return (0, False)

    def step(self, s, t):
        n, end = s
        if t[0] == "#m" and t[1] == self.X:
            return (0, end) if n == 1 else "an edge of the other graph is left out" if not n else "adds an edge twice"
        if t[0] == "#end" and t[1] == self.X:
            return (n, True)
        if t[0] == "addEdge":
            nm = t[1]
            return (n + 1, end) if n == 0 else "adds an edge twice"
        if t[0] == "bad":
            return t[1]
        return s

    def final(self, s):
        return None if s == (0, True) else "stops before all edges are added"


def roles(w, rep):
    """Which of the two containers is the one by starting node: the one that
    addEdge files under its first argument."""
    fs = w.find("addEdge")
    if len(fs) != 1:
        raise AnalysisBroken("%s::addEdge not found" % w.cls)
    res, root = w.call(fs[0])
    a0, a1 = sym(("par", "arg0")), sym(("par", "arg1"))
    votes = set()
    for st, v in res:
        if st.taint:
            return None
        for t in flat(w, st.store[LOG][1]):
            if t[0] == "add" and t[2] == a0:
                votes.add(("out", t[1][1]))
            elif t[0] == "add" and t[2] == a1:
                votes.add(("in", t[1][1]))
    if ("out", 0) in votes and ("out", 1) not in votes or ("in", 1) in votes and ("in", 0) not in votes:
        return (("g", 0), ("g", 1))
    if ("out", 1) in votes and ("out", 0) not in votes or ("in", 0) in votes:
        return (("g", 1), ("g", 0))
    raise AnalysisBroken("addEdge files nothing under its first argument")


def flat(w, pieces, seen=None):
    """All tokens reachable from the pieces."""
    seen = seen if seen is not None else set()
    for p in pieces:
        if p[0] == "#st":
            if p[1] not in seen:
                seen.add(p[1])
                for q in w.seq.trans.get(p[1], ()):
                    yield from flat(w, q, seen)
        else:
            yield p


def c14(p):
    rep = Report("C14", "Every member of the graph classes is interpreted abstractly on an unknown graph; lookups, additions and removals in the two "
                 "containers are logged and the log is run against a monitor: an edge is added once and in both directions unless it is there, "
                 "exactly the edges meant are removed in both directions, queries use the container and the node they name, copies keep both "
                 "containers. Iterators to erased edges must not be used.")
    insts = sorted(x for x in p.recs if x.startswith("DAG<"))
    if not insts:
        raise AnalysisBroken("graph class not found")
    for cls in insts:
        w = GWorld(p, cls)
        r = roles(w, rep)
        if r is None:
            rep.unresolved(cls + "/addEdge", "not understood")
            continue
        out, inn = r
        judge_members(rep, p, cls, out, inn)
    rep.floor("members", 20)
    return rep


def judge_members(rep, p, cls, out, inn):
    a0, a1, pv = sym(("par", "arg0")), sym(("par", "arg1")), ("opq", ("par", "arg2"))

    def where(f):
        return "%s (%s)" % (f["f"].get("l") or f["b"].get("l"), f["name"])

    def each(n, pt=None, ctor=False):
        for f in GWorld(p, cls).find(n, pt, ctor):
            w = GWorld(p, cls)
            try:
                res, root = w.call(f)
            except engine.NoFixpoint as x:
                rep.unresolved("%s/%s" % (cls, n), str(x))
                continue
            rep.count("members")
            if not res:
                rep.unresolved("%s/%s" % (cls, n), "does not return")
            for st, v in res:
                if st.taint or v[0] == "unk":
                    rep.unresolved("%s/%s" % (cls, n), str(st.taint or v))
                    continue
                yield w, f, st, v, root
            adopt(rep, w, "%s/%s" % (cls, n), ("iterator-deref", "iterator-advance", "iterator-dead", "null-deref"))

    def lang(w, f, st, mon, what):
        r = w.seq.check(st, st.store[LOG][1], mon)
        rep.count("logs")
        if r is None:
            rep.ok()
        elif r[0].startswith("UNKNOWN"):
            rep.unresolved("%s/%s" % (cls, what), r[0])
        else:
            rep.violation("%s/%s" % (cls, what), where(f), "%s: %s" % (f["name"], r[0]), st.trace())

    def same(w, f, st, ok, msg, what):
        if ok:
            rep.ok()
        else:
            rep.violation("%s/%s" % (cls, what), where(f), "%s: %s" % (f["name"], msg), st.trace())

    by_out = (out, a0, ("arg1", "arg2"))
    by_in = (inn, a1, ("arg0", "arg2"))
    for n, adds in (("addEdge", frozenset({(out, a0, a1, pv), (inn, a1, a0, pv)})), ("isEdgeExist", frozenset())):
        for w, f, st, v, root in each(n):
            ret = v[1] if v[0] == "c" else None
            lang(w, f, st, Mon(w, (by_out, by_in), adds, None, ret), n)
    for n, mode in (("removeEdge", "one"), ("removeDirectEdges", "all")):
        bo, bi = by_out, by_in
        if mode == "all":
            bo, bi = (out, a0, ("arg1",)), (inn, a1, ("arg0",))
        for w, f, st, v, root in each(n):
            ret = v[1] if v[0] == "c" else None
            lang(w, f, st, Mon(w, (bo, bi), frozenset(), mode, ret), n)
    for n, role in (("outEdges", out), ("inEdges", inn)):
        for w, f, st, v, root in each(n):
            ok = v[0] == "r" and len(v[2]) == 2 and v[2][0][0] == "git" and v[2][0][2] == 0 and v[2][1][0] == "gend" and \
                v[2][0][1] == v[2][1][1] and v[2][0][1][1][1] == role and v[2][0][1][1][2] == a0
            same(w, f, st, ok, "does not give the edges %s the node" % ("from" if n == "outEdges" else "to"), n)
    for n, role in (("outDegree", out), ("inDegree", inn)):
        for w, f, st, v, root in each(n):
            if v[0] != "l":
                rep.unresolved("%s/%s" % (cls, n), str(v[:1]))
                continue
            same(w, f, st, v == sym(("cnt", role, a0)), "does not count the edges %s the node" % ("from" if n == "outDegree" else "to"), n)
    for n, role, end in (("outBegin", out, "git"), ("outEnd", out, "gend"), ("inBegin", inn, "git"), ("inEnd", inn, "gend")):
        for w, f, st, v, root in each(n):
            if v[0] not in ("git", "gend"):
                rep.unresolved("%s/%s" % (cls, n), str(v[:1]))
                continue
            same(w, f, st, v[0] == end and v[1][1][1] == role and v[1][1][2] == "all", "is not the %s of all edges" % n, n)
    # copies
    want = ("r", cls, tuple(("gmm", ("other", i)) for i in range(2)))
    for w, f, st, v, root in each("operator="):
        same(w, f, st, st.store[root] == want, "does not take over both directions", "operator=")
    for f0 in GWorld(p, cls).find("DAG", None, True):
        pt = list(f0["f"]["pt"])
        if len(pt) == 1 and cls in pt[0]:
            for w, f, st, v, root in each("DAG", pt, True):
                same(w, f, st, st.store[root] == want, "does not take over both directions", "copy")
    # union
    for f in GWorld(p, cls).find("unionDAG"):
        w = GWorld(p, cls)
        X = ("L", ("mm", ("other", out[1]), "all", 0), "edge")

        def added(eng, st, node, obj, args, fn):
            if obj != ("ref", ("t", 0, "self"), ()):
                return None
            a = [eng.val(st, x) for x in args]
            nm = name(X)
            ok = a == [sym(("key", nm)), sym(("tgt", nm)), ("opq", ("val", nm))]
            w.seq.log(st, ("addEdge", nm) if ok else ("bad", "adds another edge than the one it is at"))
            return [(st, unk("result"))]
        w.e.hooks["DAG::addEdge"] = added
        res, root = w.call(f)
        rep.count("members")
        for st, v in res:
            if st.taint:
                rep.unresolved(cls + "/unionDAG", str(st.taint))
            else:
                lang(w, f, st, Each(X, None), "unionDAG")
        adopt(rep, w, cls + "/unionDAG", ("iterator-deref", "iterator-advance", "iterator-dead"))


# -- enumerating the paths of a graph -------------------------------------------
class PWorld:
    """Engine for code that walks an unknown graph through its interface.  The
    paths from a node are an unknown list named after the node."""

    def __init__(self, p, val="Syl"):
        self.p = p
        self.e = engine.Engine(p)
        self.e.unroll = 8
        self.seq = Seq(self.e, self.elem)
        self.val = val
        self.e.hooks["DAG::outEdges"] = lambda eng, st, node, obj, args, fn: self.edges(st, "out", eng.val(st, args[0]))
        self.e.hooks["DAG::inEdges"] = lambda eng, st, node, obj, args, fn: self.edges(st, "in", eng.val(st, args[0]))

    def edges(self, st, d, key):
        X = ("L", (d, key), "edge")
        return [(st, ("r", "std::pair<>", (("git", X, 0), ("gend", X))))]

    def elem(self, eng, st, t, nm):
        if t == "edge":
            rec = "DAGEdge<%s>" % self.val
            fs = eng.fieldtypes(rec)
            return [(st, ("r", "std::pair<>", (nm[1][1][1], ("r", rec, tuple(
                sym(("tgt", nm)) if self.p.ty(ft).get("cat") == "int" else ("opq", ("val", nm)) for n, ft in fs)))))]
        t = t.replace("const ", "").lstrip("&")
        if t in self.p.recs:
            return [(st, self.seqrec(t, nm))]
        return [(st, unk("element"))]

    def seqrec(self, t, nm):
        """A record whose only content is one list."""
        vals = []
        for n, ft in self.e.fieldtypes(t):
            ty = self.p.ty(ft)
            if self.e.lib.base(ty.get("name") or "") in ("std::list", "std::vector", "std::deque"):
                vals.append(("gl", ("L", nm, ty["targs"][0])))
            else:
                vals.append(unk("field"))
        return ("r", t, tuple(vals))


class Paths:
    """Every edge of the node contributes the edge followed by each
    continuation from its target, or the edge alone if there is none."""

    def __init__(self, E, unit, cont, seq=None):
        self.E = E
        self.seq = seq
        self.unit = unit       # how an entry lists its parts: entry value -> pieces
        self.cont = cont       # name of the continuations' list for an edge name

    def start(self):
        return (0, 0, False)

    def step(self, s, t):
        leaf, item, end = s
        if t[0] == "e":
            ps = self.unit(t[1])
            if ps is None:
                return "UNKNOWN: entry of unknown make"
            own = lambda x: x[0] in ("#m", "#end") and norm(x[1]) in (norm(self.cont(name(self.E))), norm(self.E))
            cut = max([i for i, x in enumerate(ps) if own(x)], default=0)
            if any(self.earlier(x) for x in ps[:cut]):
                return "an entry contains the continuations listed before"
            ps = tuple(x for x in ps if not own(x))
            if any(x[0] not in ("e", "all") for x in ps):
                if self.seq is not None and any(self.earlier(x) for x in self.seq.behind([x for x in ps if x[0] == "#st"])):
                    return "an entry contains the continuations listed before"
                return "UNKNOWN: entry of unknown make"
            if not ps or ps[0][0] != "e" or ps[0][1][0] != "opq":
                return "an entry does not start with the edge"
            nm = ps[0][1][1][1]
            if not self.cur(nm, self.E):
                return "an entry starts with another edge than the current one"
            if len(ps) == 1:
                return (leaf + 1, item, end) if not leaf else "an edge is listed twice"
            if len(ps) == 2 and ps[1][0] == "all":
                c = ps[1][1][1]
                if c[0] == "@" and self.cur(c, self.cont(nm)):
                    return (leaf, item + 1, end) if not item else "a continuation is listed twice"
                return "an edge is continued by something else than the paths from its target"
            return "an entry has parts missing or in the wrong order"
        if t[0] == "#m":
            if t[1] == self.E:
                kids = {x: (adv, e) for x, adv, e in t[3]}
                nm = name(self.E, "s0")
                st = kids.get(self.cont(nm))
                if item:
                    return "a continuation is listed twice"
                if st is None:
                    return "the continuations of an edge are not listed"
                if st[1] != "y":
                    return "not all continuations of an edge are listed"
                if st[0] == 0 and leaf != 1:
                    return "an edge without continuation is not listed"
                if st[0] != 0 and leaf:
                    return "an edge that has continuations is also listed alone"
                return (0, 0, end)
            if norm(t[1]) != norm(self.cont(name(self.E))):
                return s
            if item != 1:
                return "a continuation is left out"
            return (leaf, 0, end)
        if t[0] == "#end":
            return (leaf, item, True) if t[1] == self.E else s
        if t[0] == "all":
            return "UNKNOWN: whole list"
        return "UNKNOWN: %s" % (t[0],)

    def earlier(self, x):
        """x is a continuation that had been left behind."""
        if x[0] != "all" or x[1][0] != "L":
            return False
        c = x[1][1]
        return c[0] == "@" and norm(c[1]) == norm(self.cont(name(self.E)))

    def cur(self, nm, X):
        """nm is the current element of X (or of X with its names fixed)."""
        return nm[0] == "@" and nm[2] in (0, "s0") and norm(nm[1]) == norm(X)

    def final(self, s):
        return None if s == (0, 0, True) else "stops before all edges are listed"


def norm(x):
    """Names of current elements, whether fixed already or not."""
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == "@" and x[2] in (0, "s0"):
            return ("@", norm(x[1]), 0)
        return tuple(norm(y) for y in x)
    return x


def paths(p, rep):
    """C21: the list of pronunciations is the list of paths of the graph."""
    f = next((f for f in p.fns.values() if f["f"]["n"] == "IOutput::DAGSylStrings"), None)
    if f is None:
        raise AnalysisBroken("the function that lists the paths of a graph is not found")
    w = PWorld(p)
    node = sym(("par", "node"))
    cont = lambda n: ("L", ("paths", n), "SylString")
    E = ("L", ("out", node), "edge")
    inner = []

    def rec(eng, st, nd, obj, args, fn):
        n = eng.val(st, args[1])
        X = cont(n)
        if n[0] != "l" or st.taint:
            return None
        w.seq.setstate(st, X, 0, "?")
        inner.append(n)
        if n != sym(("tgt", name(E))):
            rep.violation("paths/node", "%s (%s)" % (nd.get("l"), f["name"]), "continues the paths from another node than the end of the current edge", st.trace())
            X = cont(sym(("tgt", name(E))))
        return [(st, ("gl", X))]
    w.e.hooks["IOutput::DAGSylStrings"] = rec
    st = St()
    st.store[("t", 0, "dag")] = ("opq", "dag")
    res = w.e.invoke(st, f, [("ref", ("t", 0, "dag"), ()), node], None, {"l": "entry", "k": "call"})
    where = "%s (%s)" % (f["f"].get("l") or f["b"].get("l"), f["name"])

    def unit(v):
        if v[0] == "r" and v[1] == "SylString":
            for x in v[2]:
                if x[0] == "T":
                    return x[1]
                if x[0] == "A":
                    return tuple(("e", y) for y in x[1])
        return None
    mon = Paths(E, unit, lambda nm: cont(sym(("tgt", nm))), w.seq)
    for st, v in res:
        if st.taint or v[0] not in ("T", "A"):
            rep.unresolved("paths/" + f["name"], str(st.taint or v[:2]))
            continue
        ps = v[1] if v[0] == "T" else tuple(("e", x) for x in v[1])
        r = w.seq.check(st, ps, mon)
        rep.count("languages")
        if r is None:
            rep.ok()
        elif r[0].startswith("UNKNOWN"):
            rep.unresolved("paths/" + f["name"], r[0])
        else:
            rep.violation("paths/" + f["name"], where, "%s: %s" % (f["name"], r[0]), st.trace())
    if not res or not inner:
        rep.unresolved("paths/" + f["name"], "does not return or does not continue")
    adopt(rep, w, "paths")


def check(pid):
    return {"C14": c14}[pid](prog.Program())
