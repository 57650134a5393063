"""C13: grouping the pronunciations of a word loses none and invents none.

The graph of syllables is copied into a graph of fractions, series and parallel
edges are merged, and the result is unfolded into chains of fractions.  The code
is interpreted abstractly on an unknown graph; every group of changes made to
the graph between two positions of its main loop must be one of the rewritings
that keep the set of paths, and the unfolding must list every path.
"""
import engine
import prog
from common import Report
from dom import I, sym, aff_add, Z
from engine import St, unk
from graph import PWorld, Paths, norm
from outcheck import adopt, World, judge, Once, top
from prog import AnalysisBroken
from seq import name

VOID = ("c", None)
LOG = ("log",)
OPS = ("gst", "ops")
MULTI = ("gst", "multi")
SRC = ("L", ("all", "src"), "edgeS")
ALL = ("L", ("all", "f"), "edgeF")
ITER = ("iterator-deref", "iterator-advance", "iterator-dead", "null-deref", "empty-access")


class FWorld:
    """Engine for building and merging the graph of fractions."""

    def __init__(self, p, rep):
        self.p = p
        self.rep = rep
        self.e = engine.Engine(p)
        self.e.unroll = 8
        self.seq = self.makeseq()
        self.steps = 0
        h = self.e.hooks
        for d in ("out", "in"):
            h["DAG::%sBegin" % d] = lambda eng, st, node, obj, args, fn, d=d: self.begin(st, obj, d, node)
            h["DAG::%sEnd" % d] = lambda eng, st, node, obj, args, fn, d=d: self.end(st, obj, d)
            h["DAG::%sEdges" % d] = lambda eng, st, node, obj, args, fn, d=d: self.edges(st, obj, d, eng.val(st, args[0]))
            h["DAG::%sDegree" % d] = lambda eng, st, node, obj, args, fn, d=d: self.degree(st, d, eng.val(st, args[0]))
        h["DAG::addEdge"] = lambda eng, st, node, obj, args, fn: self.op(st, obj, "add", args, node)
        h["DAG::removeEdge"] = lambda eng, st, node, obj, args, fn: self.op(st, obj, "rm", args, node)
        h["DAG::removeDirectEdges"] = lambda eng, st, node, obj, args, fn: self.op(st, obj, "rmd", args, node)
        h["PronunFrac::operator+="] = self.fracadd

    def makeseq(self):
        from seq import Seq
        s = Seq(self.e, self.elem)
        s.factfn = self.fact
        s.isdead = lambda st, X: ("gst", "dead", X) in st.store
        return s

    # -- values ----------------------------------------------------------------
    def listfield(self, cls):
        for i, (n, t) in enumerate(self.e.fieldtypes(cls)):
            if self.e.lib.base(self.p.ty(t).get("name") or "") in ("std::list", "std::vector", "std::deque"):
                return i
        raise AnalysisBroken("%s holds no list" % cls)

    def rec(self, cls, lst):
        i = self.listfield(cls)
        return ("r", cls, tuple(lst if j == i else unk("field") for j in range(len(self.e.fieldtypes(cls)))))

    def lst(self, v):
        """List in a record."""
        return v[2][self.listfield(v[1])] if v[0] == "r" and v[1] in self.p.recs else None

    def edgerec(self, val, tgt, v):
        rec = "DAGEdge<%s>" % val
        return ("r", rec, tuple(tgt if self.p.ty(ft).get("cat") == "int" else v for n, ft in self.e.fieldtypes(rec)))

    def elem(self, eng, st, t, nm):
        X = nm[1]
        key = X[1][2] if X[1][0] == "rng" else sym(("key", nm))
        if t == "edgeS":
            return [(st, ("r", "std::pair<>", (key, self.edgerec("Syl", sym(("tgt", nm)), ("opq", ("val", nm))))))]
        if t == "edgeF":
            if MULTI in st.store:
                L = ("L", ("val", nm), "SylString")
                self.seq.setstate(st, L, 0, "n")
                v = ("gl", L)
            else:
                v = ("A", (self.rec("SylString", ("gl", ("L", ("val", nm), "Syl"))),))
            return [(st, ("r", "std::pair<>", (key, self.edgerec("PronunFrac", sym(("tgt", nm)), self.rec("PronunFrac", v)))))]
        if t == "SylString":
            return [(st, self.rec("SylString", ("gl", ("L", ("alt", nm), "Syl"))))]
        return [(st, unk("element"))]

    # -- the interface of the graphs ------------------------------------------------
    def src(self, st, obj):
        return self.e.read(st, obj)[0] == "opq"

    def begin(self, st, obj, d, node):
        if self.src(st, obj):
            return [(st, ("git", SRC, 0))] if self.seq.state(st, SRC)[0] == 0 else None
        filled = any(o[0] == "add" for o in st.store.get(OPS, ("ops", ()))[1][-1:])
        self.commit(st, node)
        self.reset(st, ALL)
        if filled:
            self.seq.setstate(st, ALL, 0, "n")
        return [(st, ("git", ALL, 0))]

    def end(self, st, obj, d):
        return [(st, ("gend", SRC if self.src(st, obj) else ALL))]

    def reset(self, st, X):
        """A new pass over X: nothing is known of it any more."""
        names = lambda x: self.mentionsany(x, X)
        for r in list(st.store):
            v = st.store[r]
            if r[0] in ("ge", "gst") and names(r):
                del st.store[r]
            elif r[0] not in ("ge", "gst", "log") and names(v):
                st.store[r] = unk("of an earlier pass")
        for s in list(st.dom):
            if names(s):
                del st.dom[s]
        for s in st.dbm.syms():
            if names(s):
                st.dbm.forget(s)
        self.seq.setstate(st, X, 0, "?")

    def mentionsany(self, x, X):
        if x == X:
            return True
        return isinstance(x, (tuple, frozenset)) and any(self.mentionsany(y, X) for y in x)

    def edges(self, st, obj, d, key):
        t = "edgeS" if self.src(st, obj) else "edgeF"
        X = ("L", ("rng", d, key), t)
        lo = self.e.lo(st, sym(("deg", d, key)))
        if ("gst", "seq", X) not in st.store:
            self.seq.setstate(st, X, 0, "n" if lo is not None and lo >= 1 else "?")
        adv = self.seq.state(st, X)[0]
        return [(st, ("r", "std::pair<>", (("git", X, 0 if adv == 0 else "b"), ("gend", X))))]

    def degree(self, st, d, key):
        s = ("deg", d, key)
        st.dbm.add(Z, s, 0)
        return [(st, sym(s))]

    def op(self, st, obj, what, args, node):
        eng = self.e
        a = tuple(eng.val(st, x) for x in args)
        if self.src(st, obj):
            self.rep.violation("fraction/source", str(node.get("l")), "changes the graph it copies from", st.trace())
            return [(st, unk("result"))]
        if what == "add" and self.copied(st, a, node):
            return [(st, unk("result"))]
        ops = st.store.get(OPS, ("ops", ()))[1]
        st.store[OPS] = ("ops", ops + ((what,) + a,))
        # edges that are no longer there
        if what != "add":
            for r in list(st.store):
                if r[:2] == ("gst", "seq") and r[2][2] == "edgeF":
                    X = r[2]
                    er = st.store.get(("ge", name(X)))
                    if er is None:
                        continue
                    f, t, v = self.ends(X, er, name(X))
                    if self.same(st, f, a[0]) and self.same(st, t, a[1]) and (what == "rmd" or v == a[2]):
                        st.store[("gst", "dead", X)] = ("c", True)
        return [(st, unk("result"))]

    def ends(self, X, er, nm):
        """(from, to, value) of the edge at an element of a list of edges."""
        key, e = er[2]
        tgt = next(x for (n, ft), x in zip(self.e.fieldtypes(e[1]), e[2]) if self.p.ty(ft).get("cat") == "int")
        val = next(x for (n, ft), x in zip(self.e.fieldtypes(e[1]), e[2]) if self.p.ty(ft).get("cat") != "int")
        return (key, tgt, val) if X[1][:2] != ("rng", "in") else (tgt, key, val)

    def same(self, st, a, b):
        if a == b:
            return True
        if a[0] != "l" or b[0] != "l":
            return False
        d = aff_add(a, b, -1)
        return self.e.lo(st, d) == 0 == self.e.hi(st, d)

    def fracadd(self, eng, st, node, obj, args, fn):
        """Union of alternatives (judged by itself, see frac_set)."""
        v = eng.read(st, obj)
        o = eng.val(st, args[0])
        l = self.lst(v)
        if l is None or l[0] not in ("A", "T") or o[0] != "r":
            return None
        ps = tuple(("e", x) for x in l[1]) if l[0] == "A" else l[1]
        if o[1] == "PronunFrac":
            ol = self.lst(o)
            if ol[0] == "A":
                ps += tuple(("e", x) for x in ol[1])
            elif ol[0] == "gl":
                ps += (("all", ol[1]),)
            elif ol[0] == "T":
                ps += ol[1]
            else:
                return None
        else:
            ps += (("e", o),)
        i = self.listfield(v[1])
        eng.write(st, obj, ("r", v[1], tuple(("T", ps) if j == i else x for j, x in enumerate(v[2]))))
        return [(st, obj)]

    # -- copying -----------------------------------------------------------------------
    def strings(self, v):
        """Alternatives of a fraction value as tuples of pieces, or None."""
        l = self.lst(v) if v[0] == "r" else None
        if l is None or l[0] not in ("A", "T"):
            return None
        out = []
        for p in (tuple(("e", x) for x in l[1]) if l[0] == "A" else l[1]):
            if p[0] != "e":
                return None
            s = self.lst(p[1]) if p[1][0] == "r" else None
            if s is None:
                return None
            if s[0] == "gl":
                out.append((("all", s[1]),))
            elif s[0] in ("A", "T"):
                out.append(tuple(("e", x) for x in s[1]) if s[0] == "A" else s[1])
            else:
                return None
        return out

    def copied(self, st, a, node):
        """An edge added with a syllable of the source graph."""
        ss = self.strings(a[2])
        if not ss or not any(p[0] == "e" and p[1][0] == "opq" for s in ss for p in s):
            return False
        nm = name(SRC)
        ok = len(ss) == 1 and ss[0] == (("e", ("opq", ("val", nm))),) and self.same(st, a[0], sym(("key", nm))) and self.same(st, a[1], sym(("tgt", nm)))
        self.seq.log(st, ("copy", ok))
        return True

    # -- rewriting ----------------------------------------------------------------------
    def fact(self, st, X):
        if X == ALL:
            self.commit(st, {"l": "end of a pass"})
            return None
        if X[1][0] == "rng":
            d = aff_add(sym(("tgt", name(X))), sym(("tgt", name(ALL))), -1)
            lo, hi = self.e.lo(st, d), self.e.hi(st, d)
            return True if lo == 0 == hi else False if lo is not None and lo > 0 or hi is not None and hi < 0 else None
        return None

    def commit(self, st, node):
        ops = st.store.get(OPS, ("ops", ()))[1]
        st.store.pop(OPS, None)
        if not ops:
            return
        self.steps += 1
        r = self.valid(st, ops)
        if st.taint or r is not None and r.startswith("UNKNOWN"):
            self.rep.unresolved("fraction/step", str(st.taint or r))
        elif r is not None:
            where = "%s (%s)" % (node.get("l"), self.e.callstack[-1] if self.e.callstack else "")
            self.rep.violation("fraction/" + r[:40], where, r, st.trace())
        else:
            self.rep.ok()

    def identity(self, v):
        """Name of the edge whose value v is."""
        l = self.lst(v) if v[0] == "r" else None
        if l is None:
            return None
        if l[0] == "A" and len(l[1]) == 1:
            l = self.lst(l[1][0]) if l[1][0][0] == "r" else None
        if l is None or l[0] != "gl" or l[1][1][0] != "val":
            return None
        return l[1][1][1]

    def valid(self, st, ops):
        adds = [o[1:] for o in ops if o[0] == "add"]
        rms = [o[1:] for o in ops if o[0] == "rm"]
        rmds = [o[1:] for o in ops if o[0] == "rmd"]
        if rmds and not rms:
            if len(rmds) == 1 and len(adds) == 1:
                (f, t), (s, d, u) = rmds[0], adds[0]
                if not self.same(st, f, s) or not self.same(st, t, d):
                    return "puts the merged edges between other nodes than those it removes them from"
                st.store[MULTI] = ("c", True)
                return self.union(st, f, t, u)
            if not adds:
                return "removes edges without putting anything in their place"
            return "UNKNOWN: several parallel groups at once"
        if rms and not rmds:
            if not adds:
                return "removes edges without putting anything in their place"
            if len(adds) != 1 or len(rms) > 2:
                return "UNKNOWN: many changes at once"
            s, d, v = adds[0]
            es = []
            for f, t, x in rms:
                nm = self.identity(x)
                if nm is None:
                    return "UNKNOWN: removed edge"
                er = st.store.get(("ge", nm))
                if er is None:
                    return "UNKNOWN: removed edge is no longer known"
                a, b, _ = self.ends(nm[1], er, nm)
                if not self.same(st, a, f) or not self.same(st, b, t):
                    return "removes an edge between other nodes than the one it has looked at"
                es.append((nm, f, t))
            first = [x for x in es if self.same(st, x[1], s)]
            if not first:
                return "keeps the first of two edges it has merged"
            first = first[0]
            n = first[2]
            for dd in ("out", "in"):
                g = sym(("deg", dd, n))
                if not (self.e.lo(st, g) == 1 == self.e.hi(st, g)):
                    return "merges two edges at a node that may have other edges (%s)" % ("starting" if dd == "out" else "ending") + " there"
            ss = self.strings(v)
            if ss is None:
                return "UNKNOWN: merged value"
            if MULTI in st.store:
                return "merges two edges by their first alternatives only"
            if len(ss) != 1:
                return "the merged edge has another number of alternatives"
            want = [("all", ("L", ("val", first[0]), "Syl"))]
            second = [x for x in es if x is not first]
            if second and (not self.same(st, second[0][1], n) or not self.same(st, second[0][2], d)):
                return "the merged edge ends at another node than the second of the two edges"
            if len(ss[0]) != 2 or ss[0][0] != want[0] or ss[0][1][0] != "all" or ss[0][1][1][1][0] != "val":
                return "the merged edge is not the first edge followed by the second"
            sec = ss[0][1][1][1][1]
            er = st.store.get(("ge", sec))
            if er is None:
                return "UNKNOWN: second edge is no longer known"
            a, b, _ = self.ends(sec[1], er, sec)
            if not self.same(st, a, n) or not self.same(st, b, d):
                return "the merged edge is not the first edge followed by the second"
            return None
        if adds and not rms and not rmds:
            return "adds an edge beside those it was merged from"
        return "UNKNOWN: mixed changes"

    def union(self, st, f, t, u):
        X = ("L", ("rng", "out", f), "edgeF")
        l = self.lst(u) if u[0] == "r" else None
        if l is None or l[0] not in ("A", "T"):
            return "UNKNOWN: merged value"
        if not self.same(st, t, sym(("tgt", name(ALL)))):
            return "UNKNOWN: merged towards another node"
        ps = tuple(("e", x) for x in l[1]) if l[0] == "A" else l[1]
        r = self.seq.check(st, ps, Union(X))
        return r[0] if r else None


class Union:
    """The alternatives of all edges of the range that lead to the node."""

    def __init__(self, X):
        self.X = X

    def start(self):
        return (0, False)

    def step(self, s, t):
        n, end = s
        if t[0] in ("e", "all"):
            nm = None
            if t[0] == "all" and t[1][1][0] == "val":
                nm = t[1][1][1]
            elif t[0] == "e" and t[1][0] == "r":
                for x in t[1][2]:
                    if x[0] == "gl" and x[1][1][0] == "val":
                        nm = x[1][1][1]
            if nm is None:
                return "UNKNOWN: alternative of unknown origin"
            if nm[1] != self.X or nm[2] not in (0, "s0"):
                return "takes the alternatives of another edge than the one it is at"
            return (1, end)
        if t[0] == "#m" and t[1] == self.X:
            if t[2] is None:
                return "takes or leaves an edge without having looked where it leads"
            if t[2] and not n:
                return "leaves out the alternatives of an edge that is removed"
            if not t[2] and n:
                return "takes the alternatives of an edge that leads elsewhere"
            return (0, end)
        if t[0] == "#end":
            return (n, True) if t[1] == self.X else s
        if t[0] == "#m":
            return s
        return "UNKNOWN: %s" % (t[0],)

    def final(self, s):
        return None if s[1] else "does not look through all edges of the node"


class Copy:
    def start(self):
        return (0, False)

    def step(self, s, t):
        n, end = s
        if t[0] == "copy":
            if not t[1]:
                return "an edge of the copy differs from the one it is copied from"
            return (1, end)
        if t[0] == "#m" and t[1] == SRC:
            return (0, end) if n else "an edge is not copied"
        if t[0] == "#end" and t[1] == SRC:
            return (n, True)
        return s

    def final(self, s):
        return None if s == (0, True) else "not all edges are copied"


def fn(p, n, pt=None):
    for f in p.fns.values():
        if f["f"]["n"] == n and f.get("b") and (pt is None or [x.replace("const ", "").lstrip("&") for x in f["f"]["pt"]] == pt):
            return f
    raise AnalysisBroken("%s not found" % n)


def place(f):
    return "%s (%s)" % (f["f"].get("l") or f["b"].get("l"), f["name"])


def merging(p, rep):
    f = fn(p, "PronunDAG::fracDAG")
    w = FWorld(p, rep)
    st = St()
    st.store[LOG] = ("T", ())
    st.store[("t", 0, "dag")] = ("opq", "dag")
    res = w.e.invoke(st, f, [], ("ref", ("t", 0, "dag"), ()), {"l": "entry", "k": "mcall"})
    for st, v in res:
        w.commit(st, {"l": "the end"})
        if st.taint:
            rep.unresolved("fraction/copy", str(st.taint))
            continue
        verdict(rep, w, st, st.store[LOG][1], Copy(), "fraction/copy", f)
    if not res:
        rep.unresolved("fraction/copy", "does not return")
    rep.count("rewriting_steps", w.steps)
    adopt(rep, w, "fraction", ITER)


def verdict(rep, w, st, pieces, mon, key, f):
    r = w.seq.check(st, pieces, mon)
    rep.count("languages")
    if r is None:
        rep.ok()
    elif r[0].startswith("UNKNOWN"):
        rep.unresolved(key, r[0])
    else:
        rep.violation(key, place(f), "%s: %s" % (f["name"], r[0]), st.trace())


def unfolding(p, rep):
    """Every path of the merged graph becomes a chain."""
    f = fn(p, "FracDAG::nodeLattice")
    w = PWorld(p, "PronunFrac")
    node = sym(("par", "node"))
    E = ("L", ("out", node), "edge")
    cont = lambda n: ("L", ("paths", n), "PronunChain")
    listf = FWorld(p, rep).listfield
    seen = []

    def rec(eng, st, nd, obj, args, fn_):
        n = eng.val(st, args[0])
        if n[0] != "l" or st.taint:
            return None
        seen.append(n)
        X = cont(n)
        if n != sym(("tgt", name(E))):
            rep.violation("unfold/node", "%s (%s)" % (nd.get("l"), f["name"]), "continues from another node than the end of the current edge", st.trace())
            X = cont(sym(("tgt", name(E))))
        w.seq.setstate(st, X, 0, "?")
        i = listf("PronunLatt")
        return [(st, ("r", "PronunLatt", tuple(("gl", X) if j == i else unk("field") for j in range(len(w.e.fieldtypes("PronunLatt"))))))]
    w.e.hooks["FracDAG::nodeLattice"] = rec
    st = St()
    st.store[("t", 0, "dag")] = ("opq", "dag")
    res = w.e.invoke(st, f, [node], ("ref", ("t", 0, "dag"), ()), {"l": "entry", "k": "mcall"})

    def unit(v):
        if v[0] == "r" and v[1] == "PronunChain":
            x = v[2][listf("PronunChain")]
            return x[1] if x[0] == "T" else tuple(("e", y) for y in x[1]) if x[0] == "A" else None
        return None
    for st, v in res:
        l = v[2][listf("PronunLatt")] if v[0] == "r" else v
        if st.taint or l[0] not in ("A", "T"):
            rep.unresolved("unfold", str(st.taint or l[:1]))
            continue
        ps = l[1] if l[0] == "T" else tuple(("e", x) for x in l[1])
        verdict(rep, w, st, ps, Paths(E, unit, lambda nm: cont(sym(("tgt", nm))), w.seq), "unfold", f)
    if not res or not seen:
        rep.unresolved("unfold", "does not return or does not continue")
    adopt(rep, w, "unfold", ITER)
    # the lattice of the whole word starts at node 0
    f = fn(p, "FracDAG::lattice")
    w = PWorld(p, "PronunFrac")
    i = listf("PronunLatt")

    def zero(eng, st, nd, obj, args, fn_):
        n = eng.val(st, args[0])
        return [(st, ("r", "PronunLatt", tuple(("gl", cont(n)) if j == i else unk("field") for j in range(len(w.e.fieldtypes("PronunLatt"))))))]
    w.e.hooks["FracDAG::nodeLattice"] = zero
    w.e.hooks["PronunLatt::mergeSingles"] = lambda eng, st, nd, obj, args, fn_: [(st, obj)]
    st = St()
    st.store[("t", 0, "dag")] = ("opq", "dag")
    for st, v in w.e.invoke(st, f, [], ("ref", ("t", 0, "dag"), ()), {"l": "entry", "k": "mcall"}):
        v = w.e.read(st, v) if v[0] == "ref" else v
        if st.taint or v[0] != "r":
            rep.unresolved("unfold/start", str(st.taint or v[:1]))
        elif v[2][i] != ("gl", cont(I(0))):
            rep.violation("unfold/start", place(f), "%s does not return the chains from the first node on" % f["name"], st.trace())
        else:
            rep.ok()


class SWorld:
    """Engine for the lists of alternatives and of fractions."""

    def __init__(self, p):
        self.p = p
        self.e = engine.Engine(p)
        self.e.unroll = 8
        from seq import Seq
        self.seq = Seq(self.e, self.elem)
        self.seq.factfn = self.fact
        self.facts = lambda st, X: None

    def fact(self, st, X):
        return self.facts(st, X)

    def elem(self, eng, st, t, nm):
        t = t.replace("const ", "").lstrip("&")
        if t == "SylString":
            return [(st, ("opq", ("str", nm)))]
        if t in self.p.recs:
            return [(st, self.rec(t, ("gl", ("L", nm, self.ltype(t)))))]
        return [(st, unk("element"))]

    def ltype(self, cls):
        for n, t in self.e.fieldtypes(cls):
            ty = self.p.ty(t)
            if self.e.lib.base(ty.get("name") or "") in ("std::list", "std::vector", "std::deque"):
                return ty["targs"][0]

    def listfield(self, cls):
        for i, (n, t) in enumerate(self.e.fieldtypes(cls)):
            if self.e.lib.base(self.p.ty(t).get("name") or "") in ("std::list", "std::vector", "std::deque"):
                return i
        raise AnalysisBroken("%s holds no list" % cls)

    def rec(self, cls, lst):
        i = self.listfield(cls)
        return ("r", cls, tuple(lst if j == i else unk("field") for j in range(len(self.e.fieldtypes(cls)))))


def order_hooks(w):
    """Comparisons of pronunciations are facts lt / eq / gt about two values."""
    def hook(op):
        def h(eng, st, node, obj, args, fn_):
            a, b = eng.read(st, obj), eng.val(st, args[0])
            if a[0] != "opq" or b[0] != "opq":
                return None
            return relation(st, a[1], b[1], op)
        return h
    for op in ("<", ">", "<=", ">=", "==", "!="):
        w.e.hooks["SylString::operator" + op] = hook(op)


TEST = {"<": 1, ">": 4, "==": 2, "<=": 3, ">=": 6, "!=": 5}


def relation(st, a, b, op):
    if a == b:
        return [(st, ("c", op in ("==", "<=", ">=")))]
    m = TEST[op]
    flip = repr(a) > repr(b)
    if flip:
        a, b = b, a
        m = (m & 2) | (m & 1) << 2 | (m & 4) >> 2
    s = ("rel", a, b)
    d = st.dom.get(s, 7)
    out = []
    for x, r in ((d & m, True), (d & ~m, False)):
        if x:
            q = st.fork()
            q.dom[s] = x
            out.append((q, ("c", r)))
    return out


def related(st, a, b):
    """Possible relations of a to b as a mask (1 <, 2 ==, 4 >)."""
    if repr(a) > repr(b):
        d = st.dom.get(("rel", b, a), 7)
        return (d & 2) | (d & 1) << 2 | (d & 4) >> 2
    return st.dom.get(("rel", a, b), 7)


def fracset(p, rep):
    """Adding an alternative keeps the list sorted and without duplicates."""
    f = fn(p, "PronunFrac::operator+=", ["SylString"])
    w = SWorld(p)
    order_hooks(w)
    new = ("par", "new")
    X = ("L", "alts", "SylString")
    w.facts = lambda st, Y: related(st, ("str", name(Y)), new) if Y == X else None
    ins = []
    base = w.seq.container

    def container(st, e, m, o, v, args, f_):
        if v == ("gl", X) and m in ("insert", "emplace", "push_back", "emplace_back", "push_front", "emplace_front"):
            a = [w.e.val(st, x) for x in args]
            adv, end = w.seq.state(st, X)
            if m in ("push_back", "emplace_back"):
                at = ("gend", X)
            elif m in ("push_front", "emplace_front"):
                at = ("git", X, 0 if adv == 0 else "b")
            else:
                at, a = a[0], a[1:]
            if len(a) != 1:
                return None
            w.seq.log(st, ("ins", at, a[0], fronts(st)))
            return [(st, at)]
        return base(st, e, m, o, v, args, f_)

    def fronts(st):
        adv, end = w.seq.state(st, X)
        return (adv, end, related(st, ("str", name(X)), new))
    w.seq.container = container
    st = St()
    st.store[LOG] = ("T", ())
    st.store[("t", 0, "self")] = w.rec("PronunFrac", ("gl", X))
    st.store[("t", 0, "new")] = ("opq", new)

    def leaving(s2, d):
        if d == 1:
            w.seq.log(s2, ("left", fronts(s2)))
    w.seq.onreturn = leaving
    res = w.e.invoke(st, f, [("ref", ("t", 0, "new"), ())], ("ref", ("t", 0, "self"), ()), {"l": "entry", "k": "mcall"})
    for st, v in res:
        if st.taint:
            rep.unresolved("alternatives", str(st.taint))
        else:
            verdict(rep, w, st, st.store[LOG][1], Insert(X, ("opq", new)), "alternatives", f)
            rep.count("alternative_paths")
    if not res:
        rep.unresolved("alternatives", "does not return")
    adopt(rep, w, "alternatives", ITER)
    # the union of two fractions adds every alternative of the other
    f = fn(p, "PronunFrac::operator+=", ["PronunFrac"])
    w = SWorld(p)
    order_hooks(w)
    O = ("L", "other", "SylString")

    def one(eng, st, nd, obj, args, fn_):
        if fn_["pt"] and "SylString" in fn_["pt"][0]:
            a = eng.val(st, args[0])
            w.seq.log(st, ("one", a, obj == ("ref", ("t", 0, "self"), ())))
            return [(st, obj)]
        return None
    w.e.hooks["PronunFrac::operator+="] = one
    st = St()
    st.store[LOG] = ("T", ())
    st.store[("t", 0, "self")] = w.rec("PronunFrac", ("gl", X))
    st.store[("t", 0, "other")] = w.rec("PronunFrac", ("gl", O))
    for st, v in w.e.invoke(st, f, [("ref", ("t", 0, "other"), ())], ("ref", ("t", 0, "self"), ()), {"l": "entry", "k": "mcall"}):
        if st.taint:
            rep.unresolved("union", str(st.taint))
        else:
            verdict(rep, w, st, st.store[LOG][1], EachOne(O), "union", f)
    adopt(rep, w, "union", ITER)


class Insert:
    def __init__(self, X, new):
        self.X, self.new = X, new

    def start(self):
        return (0, None)

    def step(self, s, t):
        n, left = s
        if t[0] == "#m" and t[1] == self.X:
            if t[2] != 1:
                return "goes past an alternative that is not known to be smaller"
            return s
        if t[0] == "#end":
            return s
        if t[0] == "ins":
            if n:
                return "adds the alternative twice"
            at, v, (adv, end, rel) = t[1:]
            if v != self.new:
                return "adds something else than the alternative given"
            if at[0] == "gend" or at == ("git", self.X, 0) and end == "y":
                if end != "y":
                    return "adds the alternative at the end although larger ones may precede it"
            elif at == ("git", self.X, 0):
                if rel & 2:
                    return "adds an alternative that may be there already"
                if rel & 1:
                    return "adds the alternative before one that may be smaller"
            elif adv and at == ("git", self.X, "b"):
                return "adds the alternative at the beginning although smaller ones precede it"
            else:
                return "UNKNOWN: place"
            return (1, left)
        if t[0] == "left":
            return (n, t[1])
        return "UNKNOWN: %s" % (t[0],)

    def final(self, s):
        n, left = s
        if n:
            return None
        if left is None:
            return "UNKNOWN: end"
        adv, end, rel = left
        if end == "n" and rel == 2:
            return None
        return "does not add an alternative that may be missing"


class EachOne:
    def __init__(self, X):
        self.X = X

    def start(self):
        return (0, False)

    def step(self, s, t):
        n, end = s
        if t[0] == "one":
            v, mine = t[1:]
            if not mine:
                return "adds to another fraction"
            if v[0] != "opq":
                return "UNKNOWN: alternative"
            nm = v[1][1]
            if nm[1] != self.X or nm[2] not in (0, "s0"):
                return "adds another alternative than the one it is at"
            return (1, end)
        if t[0] == "#m" and t[1] == self.X:
            return (0, end) if n else "leaves out an alternative"
        if t[0] == "#end" and t[1] == self.X:
            return (n, True)
        return s

    def final(self, s):
        return None if s == (0, True) else "does not go through all alternatives"


def chains(p, rep):
    """Merging neighbouring fractions that have one alternative each."""
    f = fn(p, "PronunChain::mergeSingles")
    w = SWorld(p)
    X = ("L", "fracs", "PronunFrac")
    own = lambda nm: ("r", "SylString", (("gl", ("L", ("str", nm), "Syl")),))
    e = w.e
    merged = []

    def elem(eng, st, t, nm):
        t = t.replace("const ", "").lstrip("&")
        if t == "SylString":
            i = w.listfield("SylString")
            return [(st, ("r", "SylString", tuple(("T", (("all", ("L", ("str", nm), "Syl")),)) if j == i else unk("field") for j in range(len(e.fieldtypes("SylString"))))))]
        if t == "PronunFrac":
            L = ("L", nm, "SylString")
            w.seq.setstate(st, L, 0, "n")
            return [(st, w.rec("PronunFrac", ("gl", L)))]
        return [(st, unk("element"))]
    w.seq.elem = elem
    w.seq.sizes = True

    def alts(k):
        return ("L", name(X, k), "SylString")

    def pieces(st, k):
        """What the first alternative of fraction k has become."""
        v = st.store.get(("ge", name(alts(k))))
        if v is None:
            return (("all", ("L", ("str", name(alts(k))), "Syl")),)
        x = v[2][w.listfield("SylString")]
        return x[1] if x[0] == "T" else None

    def single(st, k):
        s = sym(("size", alts(k)))
        return e.lo(st, s) == 1 == e.hi(st, s)

    def plain(k):
        return (("all", ("L", ("str", name(alts(k))), "Syl")),)

    def clean(st, where):
        if st.taint:
            return
        for k in (0, -1, -2):
            if pieces(st, k) != plain(k):
                rep.violation("chain/append", where, "appends to a fraction without removing what was appended", st.trace())
    w.facts = lambda st, Y: clean(st, place(f)) if Y == X and not merging_now else None
    merging_now = []
    base = w.seq.container

    def container(st, nd, m, o, v, args, f_):
        if v == ("gl", X) and m == "erase" and len(args) == 1:
            at = e.val(st, args[0])
            if at[0] != "git" or at[1] != X or at[2] not in (0, -1):
                return None
            if not w.seq.alive(st, nd, at):
                return []
            k = at[2]
            merged.append(1)
            where = "%s (%s)" % (nd.get("l"), f["name"])
            want = plain(k - 1) + plain(k)
            got = pieces(st, k - 1)
            nxt = plain(k) + plain(k - 1)
            if st.taint or got is None:
                rep.unresolved("chain/erase", str(st.taint or "value"))
            elif not single(st, k):
                rep.violation("chain/erase", where, "removes a fraction that may have other alternatives than the one appended", st.trace())
            elif not single(st, k - 1):
                rep.violation("chain/erase", where, "appends to one alternative of a fraction that may have others", st.trace())
            elif got != want:
                rep.violation("chain/erase", where, "the fraction before the removed one does not become itself followed by it", st.trace())
            else:
                rep.ok()
            r = ("ge", name(alts(k - 1)))
            if r in st.store:
                del st.store[r]
            merging_now.append(1)
            try:
                return w.seq.erase(st, nd, at)
            finally:
                merging_now.pop()
        return base(st, nd, m, o, v, args, f_)
    w.seq.container = container
    st = St()
    st.store[("t", 0, "self")] = w.rec("PronunChain", ("gl", X))
    w.seq.onreturn = lambda s2, d: clean(s2, place(f)) if d == 1 and not s2.taint else None
    res = e.invoke(st, f, [], ("ref", ("t", 0, "self"), ()), {"l": "entry", "k": "mcall"})
    for st, v in res:
        if st.taint:
            rep.unresolved("chain", str(st.taint))
        else:
            rep.ok()
    rep.count("chain_merges", len(merged))
    adopt(rep, w, "chain", ITER)
    # the lattice merges each of its chains and changes nothing else
    f2 = fn(p, "PronunLatt::mergeSingles")
    w2 = SWorld(p)
    C = ("L", "chains", "PronunChain")
    w2.e.hooks["PronunChain::mergeSingles"] = lambda eng, st, nd, obj, args, fn_: [(st, obj)]
    st = St()
    st.store[("t", 0, "self")] = w2.rec("PronunLatt", ("gl", C))
    for st, v in w2.e.invoke(st, f2, [], ("ref", ("t", 0, "self"), ()), {"l": "entry", "k": "mcall"}):
        if st.taint:
            rep.unresolved("chain/all", str(st.taint))
        elif st.store[("t", 0, "self")] != w2.rec("PronunLatt", ("gl", C)):
            rep.violation("chain/all", place(f2), "changes the list of chains", st.trace())
        else:
            rep.ok()
    adopt(rep, w2, "chain/all", ITER)


def writer(p, rep):
    """The grouped writer writes the lattice of the merged graph."""
    w = World(p)
    f = w.method("GroupedJsonOutput", ["PronunDAG"])
    if f is None:
        raise AnalysisBroken("GroupedJsonOutput::output(PronunDAG) not found")
    e = w.e

    def frac(eng, st, nd, obj, args, fn_):
        return [(st, ("opq", "fdag"))] if eng.read(st, obj) == ("opq", "dag") else None

    def latt(eng, st, nd, obj, args, fn_):
        return [(st, w.fresh(st, "PronunLatt", "latt"))] if eng.read(st, obj) == ("opq", "fdag") else None
    e.hooks["PronunDAG::fracDAG"] = frac
    e.hooks["FracDAG::lattice"] = latt
    e.hooks["FracDAG::FracDAG"] = lambda eng, st, nd, obj, args, fn_: [(st, eng.val(st, args[0]))] if args else None
    res = w.run("GroupedJsonOutput", f, "PronunDAG")
    tn = top(w.fresh(St(), "PronunLatt", "latt"))
    judge(rep, w, "writer", f, res, tn, [("once", Once(tn))])
    rep.count("writers")


class Walk:
    """Each syllable becomes an edge from where the last one ended."""

    def __init__(self, X, start):
        self.X, self.begin = X, start

    def start(self):
        return (0, 0)

    def step(self, s, t):
        n, i = s
        if t[0] == "edge":
            f, to, nm = t[1:]
            if nm != 0:
                return "adds another syllable than the one it is at"
            if to != 0:
                return "an edge does not end where its syllable ends"
            if f != ("start" if i == 0 else -1):
                return "an edge does not start where the syllable before it ends"
            return (1, i)
        if t[0] == "#m" and t[1] == self.X:
            return (0, 1) if n else "a syllable is not added to the graph"
        return s

    def final(self, s):
        return None if not s[0] else None


def building(p, rep):
    """A list of pronunciations becomes a graph with these paths."""
    f = fn(p, "PronunDAG::addSylString")
    w = World(p)
    X = ("L", "arg", "Syl")

    def where(v):
        if v == sym(("par", "pos")):
            return "start"
        for k in (0, -1, -2):
            if v == sym(("pos", name(X, k), "syl")):
                return k
        return "?"

    def add(eng, st, nd, obj, args, fn_):
        a = [eng.val(st, x) for x in args]
        i = w.identity(a[2])
        w.seq.log(st, ("edge", where(a[0]), where(a[1]), i[0][2] if i and i[0][1] == X else "?"))
        return [(st, unk("result"))]
    w.e.hooks["DAG::addEdge"] = add
    w.seq.classkey = lambda st: w.seq.state(st, X)[0]
    w.seq.elem = lambda eng, st, t, nm: [(st, w.syl(st, nm, "syl"))]
    st = St()
    st.store[LOG] = ("T", ())
    st.store[("t", 0, "dag")] = ("opq", "dag")
    st.store[("t", 0, "arg")] = w.fresh(st, "SylString", "arg")
    tn = top(st.store[("t", 0, "arg")])
    X = tn
    for st, v in w.e.invoke(st, f, [sym(("par", "pos")), ("ref", ("t", 0, "arg"), ())], ("ref", ("t", 0, "dag"), ()), {"l": "entry", "k": "mcall"}):
        if st.taint:
            rep.unresolved("build", str(st.taint))
            continue
        if w.seq.state(st, X)[1] != "y":
            rep.violation("build/all", place(f), "stops before all syllables are added", st.trace())
        verdict(rep, w, st, st.store[LOG][1], Walk(X, None), "build", f)
    adopt(rep, w, "build", ITER)
    # the graph of a list of pronunciations: each from the first node on
    f = fn(p, "PronunDAG::PronunDAG", ["std::list<SylString>"])
    w = SWorld(p)
    O = ("L", "all", "SylString")

    def add1(eng, st, nd, obj, args, fn_):
        a = [eng.val(st, x) for x in args]
        if a[0] != I(0):
            rep.violation("build/start", "%s (%s)" % (nd.get("l"), f["name"]), "a pronunciation does not start at the first node", st.trace())
        w.seq.log(st, ("one", a[1], True))
        return [(st, VOID)]
    w.e.hooks["PronunDAG::addSylString"] = add1
    w.e.hooks["DAG::addEdge"] = lambda eng, st, nd, obj, args, fn_: [(st, eng.giveup(st, "edge added directly", nd))]
    st = St()
    st.store[LOG] = ("T", ())
    st.store[("t", 0, "self")] = ("opq", "new")
    st.store[("t", 0, "list")] = ("gl", O)
    res = w.e.invoke(st, f, [("ref", ("t", 0, "list"), ())], ("ref", ("t", 0, "self"), ()), {"l": "entry", "k": "ctor"})
    for st, v in res:
        if st.taint:
            rep.unresolved("build/list", str(st.taint))
        else:
            verdict(rep, w, st, st.store[LOG][1], EachOne(O), "build/list", f)
    if not res:
        rep.unresolved("build/list", "does not return")
    adopt(rep, w, "build/list", ITER)


def c13(p):
    rep = Report("C13", "Building, merging and unfolding of the graph are interpreted abstractly on an unknown graph. Every group of changes the merging makes "
                 "between two positions of its loop is compared with the two rewritings that keep the set of paths (two edges in series at a node "
                 "without other edges become one with the strings joined; all edges between two nodes become one with all alternatives); the "
                 "copy, the unfolding into chains, the sorted lists of alternatives and the merging of neighbours in a chain are regular "
                 "languages run against monitors.")
    for part in (merging, unfolding, fracset, chains, writer, building):
        try:
            part(p, rep)
            rep.count("parts")
        except engine.NoFixpoint as x:
            rep.unresolved(part.__name__, str(x))
    if not rep.unres and not rep.viol:
        rep.floor("rewriting_steps", 2)
        rep.floor("chain_merges", 1)
        rep.floor("languages", 8)
    return rep


def check(pid):
    return {"C13": c13}[pid](prog.Program())
