"""C23: no analysis is lost when partial analyses wait or are merged.

The collection of waiting partial analyses is interpreted on a list of unknown
length and content.  What the parser does with a finished one comes from the
analysis of the parser itself.
"""
import engine
import parse
import parsecheck
from common import Report
from dom import I, sym, Z, aff_add
from engine import St, unk, NoFixpoint
from latt import place, LOG
from prog import AnalysisBroken
from seq import Seq, name

def swap(x, a, b):
    if x == a:
        return b
    return tuple(swap(y, a, b) for y in x) if isinstance(x, tuple) else x


class PWorld:
    def __init__(self, p):
        self.p = p
        self.m = parse.Model(p)
        self.e = engine.Engine(p)
        self.e.unroll = 8
        self.seq = Seq(self.e, self.elem)
        self.seq.factfn = self.fact
        self.X = None
        for i, (n, t) in enumerate(self.e.fieldtypes(self.m.pool)):
            ty = p.ty(t)
            if ty.get("targs") and p.ty(ty["targs"][0]).get("name") == self.m.state:
                if self.e.lib.base(ty.get("name") or "") not in ("std::list", "std::vector", "std::deque"):
                    raise NoFixpoint("the waiting list is a %s" % ty.get("name"))
                self.X = ("L", "waiting", ty["targs"][0])
                self.at = i
        self.e.hooks["DAG::unionDAG"] = self.union
        self.e.hooks["PronunDAG::PronunDAG"] = self.copy
        self.e.hooks["DAG::DAG"] = self.copy
        self.e.hooks["PronunDAG::operator="] = self.assign
        self.e.hooks["DAG::operator="] = self.assign
        base = self.seq.container

        def container(st, e, m, o, v, args, f):
            if v == ("gl", self.X):
                r = self.waiting(st, e, m, o, args)
                if r is not None:
                    return r
            return base(st, e, m, o, v, args, f)
        self.seq.container = container

    def copy(self, eng, st, node, obj, args, f):
        if len(args) == 1:
            v = eng.val(st, args[0])
            if v[0] == "opq":
                return [(st, v)]
        return None

    def assign(self, eng, st, node, obj, args, f):
        v = eng.val(st, args[0])
        if v[0] == "opq":
            eng.write(st, obj, v)
            return [(st, obj)]
        return None

    def value(self, st, who):
        """A partial analysis of which every part is unknown."""
        out = []
        for n, t in self.e.fieldtypes(self.m.state):
            if n == self.m.dag:
                out.append(("opq", ("dag", who)))
            elif n in (self.m.pos, self.m.stop):
                out.append(sym((n, who)))
            else:
                out.append(self.e.fresh(st, t, (n, who)))
        return ("r", self.m.state, tuple(out))

    def pristine(self, who):
        return self.value(St(), who)

    def elem(self, eng, st, t, nm):
        return [(st, self.value(st, nm))]

    def fact(self, st, X):
        v = st.store.get(("ge", name(X)))
        return "altered" if v is not None and v != self.pristine(name(X)) else None

    def same(self, st, a, b):
        """Do two partial analyses agree in position and link?  True/False/None"""
        r = True
        for (n, t), x, y in zip(self.e.fieldtypes(self.m.state), a[2], b[2]):
            if n in (self.m.dag, self.m.stop):
                continue
            if x == y:
                continue
            if x[0] == "l" and y[0] == "l":
                d = aff_add(x, y, -1)
                lo, hi = self.e.lo(st, d), self.e.hi(st, d)
                if not lo == hi == 0:
                    r = False
                continue
            if x[0] != "f" or y[0] != "f":
                return None
            xs, ys = (set(v[2].image(st.dom.get(v[1], v[2].uni.full))) for v in (x, y))
            if xs != ys or len(xs) != 1:
                r = False
        return r

    def union(self, eng, st, node, obj, args, f):
        a = eng.val(st, args[0])
        g = eng.read(st, obj)
        if a[0] != "opq" or g[0] != "opq":
            return None
        who = st.store[obj[1]] if obj[0] == "ref" and obj[1] in st.store else None
        giver = self.pristine(a[1][1])
        taker = self.pristine(g[1][1])
        self.seq.log(st, ("union", g[1][1], a[1][1], self.same(st, giver, taker)))
        return [(st, ("c", None))]

    def waiting(self, st, e, m, o, args):
        X = self.X
        vals = [self.e.val(st, a) for a in args]
        if m in ("insert", "emplace", "push_back", "emplace_back", "push_front", "emplace_front"):
            if m in ("insert", "emplace"):
                at, vals = vals[0], vals[1:]
                if not self.seq.alive(st, e, at):
                    return []
            if m.startswith("emplace") and len(vals) != 1:
                return None
            if len(vals) != 1 or vals[0][0] != "r":
                return None
            self.seq.log(st, ("in", vals[0]))
            return [(st, ("git", X, "o"))]
        if m in ("pop_front", "pop_back"):
            adv, end = self.seq.state(st, X)
            if m == "pop_front" and adv == 0:
                r = self.seq.erase(st, e, ("git", X, 0))
                return [(s, ("c", None)) for s, _ in r]
            if m == "pop_back":
                self.seq.log(st, ("er", X, "back"))
                st.store = {swap(r, name(X, "z"), name(X, "g")): swap(v, name(X, "z"), name(X, "g")) for r, v in st.store.items()}
                return [(st, ("c", None))]
            return None
        if m == "back":
            out = []
            for s2, none in [(st, False)] if self.seq.state(st, X)[0] else self.seq.atend(st, X):
                self.e.oblige("iterator-deref", e, s2, not none, "takes the last of an empty list")
                if not none:
                    s2.store.setdefault(("ge", name(X, "z")), self.value(s2, name(X, "z")))
                    out.append((s2, ("ref", ("ge", name(X, "z")), ())))
            return out
        if m == "erase" and len(vals) == 1 and vals[0][0] == "git" and isinstance(vals[0][2], int):
            return self.seq.erase(st, e, vals[0])
        if m == "erase":
            self.seq.log(st, ("er", X, "range"))
            return [(st, ("gend", X))]
        if m in ("clear", "resize", "swap", "assign", "operator="):
            self.seq.log(st, ("er", X, m))
            return [(st, ("c", None))]
        return None


class Kept:
    """Judges what has happened to the list while one was added."""

    def __init__(self, w, new):
        self.w, self.new = w, new

    def start(self):
        return ("-",)

    def step(self, s, t):
        if t[0] == "#m":
            return "a waiting partial analysis is altered" if t[2] == "altered" else s
        if t[0] == "#end":
            return s
        if t[0] == "er":
            return "a waiting partial analysis is dropped"
        if t[0] == "in":
            v = t[1]
            if v == self.new:
                return ("kept",)
            for (n, _), x, y in zip(self.w.e.fieldtypes(self.w.m.state), v[2], self.new[2]):
                if x != y:
                    return "what is put into the waiting list differs from what was handed over in `%s'" % n
        if t[0] == "union":
            if t[2] != "new":
                return "a graph other than the one handed over is united into a waiting one"
            if t[3] is None:
                return "UNKNOWN whether the two analyses united stand at the same place"
            if not t[3]:
                return "the graph is united into an analysis that may stand at another place of the text or be linked differently"
            return ("kept",)
        return "UNKNOWN event %s" % (t[0],)

    def final(self, s):
        return None if s == ("kept",) else "the partial analysis handed over is neither kept nor united into another"


def judge(rep, w, st, mon, what, f):
    r = w.seq.check(st, st.store[LOG][1], mon)
    if r is None:
        rep.ok()
    elif r[0].startswith("UNKNOWN"):
        rep.unresolved(what, r[0])
    else:
        rep.violation("%s/%s" % (what, r[0][:60]), place(f), r[0], st.trace()[-10:])


def stand(w, st, vals=None):
    n = len(w.e.fieldtypes(w.m.pool))
    st.store[LOG] = ("T", ())
    st.store[("t", 0, "self")] = ("r", w.m.pool, tuple(("gl", w.X) if i == w.at else unk("field") for i in range(n)))


def intact(w, st):
    v = st.store[("t", 0, "self")]
    return v[0] == "r" and v[2][w.at] == ("gl", w.X)


def altered(w, st):
    """Elements reached and left unlike they were."""
    for r, v in st.store.items():
        if r[0] == "ge" and r[1][1] == w.X and v[0] == "r" and v != w.pristine(r[1]):
            return True
    return False


def adding(p, rep):
    w = PWorld(p)
    f = w.m.add
    st = St()
    stand(w, st)
    new = w.value(st, "new")
    st.store[("t", 0, "new")] = new

    def leaving(s2, d):
        if d == 1 and altered(w, s2):
            w.seq.log(s2, ("#m", w.X, "altered", frozenset()))
    w.seq.onreturn = leaving
    res = w.e.invoke(st, f, [("ref", ("t", 0, "new"), ())], ("ref", ("t", 0, "self"), ()), {"l": "entry", "k": "mcall"})
    if not res:
        rep.unresolved("adding", "does not return")
    for st, v in res:
        rep.count("ways_in")
        if st.taint:
            rep.unresolved("adding", str(st.taint))
        elif not intact(w, st):
            rep.unresolved("adding", "the waiting list is replaced")
        else:
            judge(rep, w, st, Kept(w, new), "adding", f)
    outcome(rep, w, "adding")


class Taken:
    def __init__(self, w, given, got):
        self.w, self.given, self.got = w, given, got

    def start(self):
        return ("-",)

    def step(self, s, t):
        if t[0] == "er":
            if s != ("-",):
                return "more than one waiting analysis is removed"
            return ("er",)
        if t[0] in ("#m", "#end"):
            return s
        if t[0] in ("in", "union"):
            return "the waiting list is altered while one is taken out"
        return "UNKNOWN event %s" % (t[0],)

    def final(self, s):
        if self.got is None:
            return "a waiting analysis is removed although none is handed over" if s == ("er",) else None
        if s != ("er",):
            return "the analysis handed over stays in the waiting list" if self.got else None
        return None


def taking(p, rep):
    w = PWorld(p)
    f = w.m.pop
    st = St()
    stand(w, st)
    st.store[("t", 0, "out")] = w.value(st, "old")
    res = w.e.invoke(st, f, [("ref", ("t", 0, "out"), ())], ("ref", ("t", 0, "self"), ()), {"l": "entry", "k": "mcall"})
    if not res:
        rep.unresolved("taking", "does not return")
    for st, v in res:
        rep.count("ways_out")
        if st.taint or v[0] != "c":
            rep.unresolved("taking", str(st.taint or v[:2]))
            continue
        if not intact(w, st):
            rep.unresolved("taking", "the waiting list is replaced")
            continue
        got = st.store[("t", 0, "out")]
        adv, end = w.seq.state(st, w.X)
        if not v[1]:
            bad = not (adv == 0 and end == "y")
            if bad:
                rep.violation("taking/none", place(f), "reports that nothing waits although something may", st.trace()[-10:])
            else:
                judge(rep, w, st, Taken(w, None, None), "taking", f)
            continue
        src = None
        if got[0] == "r":
            d = dict(zip([n for n, _ in w.e.fieldtypes(w.m.state)], got[2]))[w.m.dag]
            src = d[1][1] if d[0] == "opq" else None
        if src is None:
            rep.unresolved("taking", "what is handed over is not followed")
            continue
        if src == "old":
            rep.violation("taking/old", place(f), "hands nothing over although it reports an analysis", st.trace()[-10:])
            continue
        want = w.pristine(src)
        bad = [n for (n, _), x, y in zip(w.e.fieldtypes(w.m.state), got[2], want[2]) if x != y]
        if bad:
            rep.violation("taking/%s" % bad[0], place(f), "`%s' of what is handed over is not that of the waiting analysis" % bad[0], st.trace()[-10:])
            continue
        if src[2] != "g":
            rep.violation("taking/which", place(f), "the analysis handed over is not the one removed", st.trace()[-10:])
            continue
        judge(rep, w, st, Taken(w, src, True), "taking", f)
    outcome(rep, w, "taking")


def copying(p, rep):
    """Copies of a partial analysis are the same in every part."""
    w = PWorld(p)
    for f in sorted(p.fns.values(), key=lambda f: f["f"].get("l") or ""):
        i = f["f"]
        if i.get("crec") != w.m.state or len(i["pt"]) != 1 or i["pt"][0].replace("const ", "").lstrip("&") != w.m.state or not f.get("b"):
            continue
        if not (f.get("ctor") or i["n"].endswith("operator=")):
            continue
        st = St()
        want = st.store[("t", 0, "from")] = w.value(st, "from")
        st.store[("t", 0, "to")] = w.value(st, "to")
        res = w.e.invoke(st, f, [("ref", ("t", 0, "from"), ())], ("ref", ("t", 0, "to"), ()), {"l": "entry", "k": "mcall"})
        for st, v in res:
            got = st.store[("t", 0, "to")]
            if st.taint or got[0] != "r":
                rep.unresolved("copying", str(st.taint or got[:2]))
                continue
            rep.count("copies")
            bad = [n for (n, _), x, y in zip(w.e.fieldtypes(w.m.state), got[2], want[2]) if x != y]
            if bad:
                rep.violation("copying/%s/%s" % (i["n"], bad[0]), place(f), "a copy of a partial analysis differs in `%s'" % bad[0], st.trace()[-6:])
            else:
                rep.ok()
    outcome(rep, w, "copying")


def outcome(rep, w, what):
    kinds = ("iterator-deref", "iterator-advance", "iterator-dead", "null-deref")
    for k, (n, bad, un) in w.e.oblig.items():
        if k[0] in kinds and not bad and not un:
            rep.ok()
    for k, x in w.e.findings.items():
        if k[0] in kinds:
            rep.violation("%s/%s/%s" % (what, k[0], x["fn"]), "%s (%s)" % (x["loc"], x["fn"]), x["msg"], list(x["trace"])[-8:])
    for k, m in w.e.unresolved.items():
        rep.unresolved(what + "/" + "/".join(map(str, k)), m)


def check(pid):
    import prog
    rep = parsecheck.check(pid)
    p = prog.Program()
    for g in (adding, taking, copying):
        try:
            g(p, rep)
        except NoFixpoint as x:
            rep.unresolved(g.__name__, str(x))
    if not rep.viol and not rep.unres:
        rep.floor("ways_in", 3)
        rep.floor("ways_out", 2)
    return rep
