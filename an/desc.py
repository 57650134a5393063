"""C26: descriptions in the dictionary.

A description is a text of unknown length made of one or more pieces with a
separator between them.  The current piece starts at a known place, its end is
decided when the text is searched; then it is the last piece, or a separator
and another piece follow.
"""
import engine
import latt
import lib
import parse
import prog
from common import Report
from dom import I, sym, Z, aff_add
from engine import St, unk, NULL, VOID, TRUE, FALSE, NoFixpoint, const
from prog import AnalysisBroken
from seq import name

NPOS = (1 << 64) - 1
AT, STATE, MADE = ("gst", "d", "at"), ("gst", "d", "state"), ("gst", "d", "made")
E, L = ("d", "end"), ("d", "length")
KINDS = ("pieces", "order", "text")
BUILT = ("gh", "built")
LISTS = ("std::list", "std::vector", "std::deque")


class DescWorld:
    def __init__(self, p, sep, item, cls, ordered):
        self.ordered = ordered
        self.p = p
        self.sep = ord(sep)
        self.item = item            # class made of a piece
        self.cls = cls              # its constructor is taken as correct
        e = self.e = engine.Engine(p)
        e.refvars, e.statics = set(), {}
        e.pinned = {E, L}
        e.facts = lambda st: []
        e.joinhead = lambda c: True
        e.std_method = self.method
        e.hooks[cls + "::" + cls] = self.ctor
        for f in p.fns.values():
            n = f["name"]
            if n.startswith(cls + "::") and p.ty(f["f"].get("rt") or "").get("cat") in ("int", "enum", "bool"):
                e.hooks[n] = self.told

    def eq(self, st, a, b):
        return a is not None and b is not None and a[0] == b[0] == "l" and self.e.prove_le(st, aff_add(a, b, -1)) and self.e.prove_le(st, aff_add(b, a, -1))

    def told(self, eng, st, node, obj, args, f):
        """What an element tells about itself may be anything, but it is the
        same for all elements asked on one line: that two differ is not followed."""
        if obj is None or eng.val(st, obj)[:2] != ("gh", "item"):
            return None
        n = ("told", eng.where(node), node.get("i"))
        eng.drop_sym(st, n)
        return [(st, eng.fresh(st, f["rt"], n))]

    def isdesc(self, v):
        return v[0] == "s" and len(v[1]) == 1 and v[1][0] == ("ext", ("desc",))

    # -- the text --------------------------------------------------------
    def decide(self, st, node):
        """[st]: is the current piece the last one?"""
        if st.store[STATE] != ("c", "?"):
            return [st]
        q = st.fork()
        q.store[STATE] = ("c", "last")
        q.note(self.e.where(node), "last piece")
        self.e.drop_sym(st, E)
        s = self.e.assume_le(st, aff_add(aff_add(st.store[AT], I(1)), sym(E), -1))
        s = s and self.e.assume_le(s, aff_add(sym(E, 2), sym(L), -1))
        out = [q]
        if s:
            s.store[STATE] = ("c", "mid")
            s.note(self.e.where(node), "a piece with others after it")
            out.append(s)
        return out

    def advance(self, st, node):
        e = self.e
        e.oblige("pieces", node, st, st.store[MADE] == TRUE, "a piece of the description is left out")
        old = ("was",) + E
        e.drop_sym(st, old)
        e.rename(st, {E: old})
        st.store[AT] = sym(old, 1)
        st.store[STATE] = ("c", "?")
        st.store[MADE] = FALSE
        for r, v in list(st.store.items()):
            st.store[r] = self.older(v)

    def older(self, v):
        if isinstance(v, tuple):
            if v[:2] == ("gh", "item"):
                return ("gh", "item", "earlier piece")
            if v[:2] == ("ext", "piece"):
                return ("ext", ("d", "earlier piece"))
            if v[0:1] == ("ext",) and isinstance(v[1], tuple) and v[1][:1] == ("d",):
                return ("ext", ("d", "earlier piece"))
            return tuple(self.older(x) if isinstance(x, tuple) else x for x in v)
        return v

    def lost(self, st, node, why):
        st.taint = st.taint or why
        return [(st, self.e.giveup(st, why, node))]

    def find(self, st, node, args):
        e = self.e
        c = const(args[0])
        if isinstance(c, tuple) and len(c) == 1:
            c = c[0]
        pos = args[1] if len(args) > 1 else I(0)
        if c != self.sep or pos[0] != "l":
            if isinstance(c, int) and pos[0] == "l" and not isinstance(c, bool):
                e.oblige("text", node, st, False, "the description is divided at %r, not at %r" % (chr(c), chr(self.sep)))
                return []
            return self.lost(st, node, "search not followed")
        if st.store[STATE] == ("c", "mid"):
            d = aff_add(pos, sym(E), -1)
            if not d[1] and d[2] in (1, 2):
                self.advance(st, node)
                pos = aff_add(st.store[AT], I(d[2] - 1))
            elif e.prove_le(st, aff_add(st.store[AT], pos, -1)) and e.prove_le(st, aff_add(pos, sym(E), -1)):
                return [(st, sym(E))]
        at = st.store[AT]
        if not e.prove_le(st, aff_add(at, pos, -1)):
            return self.lost(st, node, "search not followed")
        d = aff_add(pos, at, -1)
        if d[1] or d[2] not in (0, 1):
            return self.lost(st, node, "search not followed")
        return [(s, sym(E) if s.store[STATE] == ("c", "mid") else I(NPOS)) for s in self.decide(st, node)]

    def substr(self, st, node, args):
        e = self.e
        pos = args[0] if args else I(0)
        n = args[1] if len(args) > 1 else None
        if pos[0] != "l" or n is not None and n[0] != "l":
            return self.lost(st, node, "part not followed")
        if st.store[STATE] == ("c", "mid") and self.eq(st, pos, sym(E, 1)):
            self.advance(st, node)
            pos = st.store[AT]
        at = st.store[AT]
        out = []
        if n is not None:
            d = aff_add(n, pos)
            if not d[1] and d[2] >= NPOS or const(n) == NPOS:
                n = None
        for s in self.decide(st, node):
            mid = s.store[STATE] == ("c", "mid")
            end = sym(E) if mid else sym(L)
            if self.eq(s, pos, at):
                if n is None:
                    w = "cur" if not mid else "the rest of the description"
                elif self.eq(s, aff_add(pos, n), end) or not mid and e.prove_le(s, aff_add(end, aff_add(pos, n), -1)):
                    w = "cur"
                else:
                    w = "part of a piece, or more than one"
            else:
                w = "a part that does not start where the piece does"
            out.append((s, ("s", (("ext", ("d", w)),))))
        return out

    def method(self, eng, st, node, m, o, v, args, f):
        if self.isdesc(v):
            vals = [eng.val(st, a) for a in args]
            if m in ("find", "find_first_of"):
                return self.find(st, node, vals)
            if m == "substr":
                return self.substr(st, node, vals)
            if m in ("size", "length"):
                return [(st, sym(L))]
            if m == "empty":
                return [(st, FALSE)]
            if m in ("c_str", "data"):
                return self.lost(st, node, "characters of the description")
            return self.lost(st, node, "description: " + m)
        if v[0] == "s" and len(v[1]) == 1 and v[1][0][0] == "ext" and isinstance(v[1][0][1], tuple) and v[1][0][1][:1] == ("d",):
            if m == "empty":
                return [(st, FALSE)]
            if m in ("operator=",):
                return None
            return self.lost(st, node, "piece: " + m)
        cls = eng.lib.base(f.get("cls") or f.get("crec") or "")
        if cls in LISTS and (v in (("A", ()), BUILT) or v[0] in ("A", "L", "Q")):
            ta = eng.p.ty(f.get("crec") or f.get("cls") or "").get("targs") or []
            if ta and eng.p.ty(ta[0]).get("name") == self.item:
                if m in ("push_back", "emplace_back"):
                    x = eng.val(st, args[0])
                    if x[0] == "s" or x[0] == "r":
                        x = self.made(st, node, x)
                    return self.append(st, node, o, v, x)
                if m == "insert" and len(args) == 2:
                    return self.lost(st, node, "insert") if eng.val(st, args[0]) != ("gh", "endit") else self.append(st, node, o, v, eng.val(st, args[1]))
                if m == "insert" and len(args) == 3 and v in (("A", ()), BUILT) and eng.val(st, args[0]) == ("gh", "endit"):
                    a = eng.val(st, args[1])
                    if a[:2] == ("gh", "allof"):
                        return self.append(st, node, o, v, a[2])
                    return self.lost(st, node, "insert")
                if m in ("end", "cend") and v in (("A", ()), BUILT):
                    return [(st, ("gh", "endit"))]
                if m in ("push_front", "emplace_front"):
                    if not self.ordered:
                        return self.append(st, node, o, v, self.made(st, node, eng.val(st, args[0])))
                    eng.oblige("order", node, st, False, "pieces are put in front of those before them")
                    return []
                if v == BUILT and m == "clear":
                    eng.oblige("pieces", node, st, False, "pieces already read are dropped")
                    return []
                if v == BUILT and m == "empty":
                    return [(st, FALSE)]
                if v == BUILT and m == "back":
                    return [(st, ("gh", "item", "cur" if st.store[MADE] == TRUE else "earlier piece"))]
                if v == BUILT:
                    return self.lost(st, node, "result: " + m)
        return None

    def append(self, st, node, o, v, x):
        e = self.e
        if x[:2] != ("gh", "item"):
            e.oblige("pieces", node, st, None, "what is added is not followed")
            st.taint = st.taint or "added"
        elif x[2] != "cur":
            e.oblige("text", node, st, False, "what is added is not a piece of the description: " + x[2])
            return []
        elif st.store[MADE] == TRUE:
            e.oblige("pieces", node, st, False, "a piece of the description is added twice")
            return []
        else:
            e.oblige("pieces", node, st, True, "")
        st.store[MADE] = TRUE
        e.write(st, o, BUILT)
        return [(st, VOID)]

    def made(self, st, node, v):
        if v[:2] == ("gh", "item"):
            return v
        if v[0] == "s" and len(v[1]) == 1 and v[1][0][0] == "ext":
            t = v[1][0][1]
            if t == ("desc",):
                if st.store[AT] == I(0) and st.store[STATE] != ("c", "mid"):
                    return ("gh", "item", "cur") if st.store[STATE] == ("c", "last") else unk("item")
                return ("gh", "item", "the whole description")
            if isinstance(t, tuple) and t[:1] == ("d",):
                return ("gh", "item", t[1])
        return unk("item")

    def ctor(self, eng, st, node, obj, args, f):
        if not args:
            return None
        v = eng.val(st, args[0])
        if v[:2] == ("gh", "item"):
            return [(st, v)]
        x = self.made(st, node, v)
        if x[0] == "gh":
            if len(args) > 1:
                k = eng.val(st, args[1])
            return [(st, x)]
        return None

    # -- the whole ---------------------------------------------------------
    def start(self):
        st = St()
        st.dbm.add(Z, L, -1)
        st.dbm.add(L, Z, 1 << 20)
        st.store.update({AT: I(0), STATE: ("c", "?"), MADE: FALSE})
        st.store[("t", 0, "desc")] = ("s", (("ext", ("desc",)),))
        return st

    def end(self, st, node, v):
        e = self.e
        if st.taint:
            e.oblige("pieces", node, st, None, str(st.taint))
            return
        e.oblige("pieces", node, st, st.store[STATE] == ("c", "last") and st.store[MADE] == TRUE, "reading stops before the last piece of the description")
        while v[0] == "r" and len(v[2]) == 1:
            v = v[2][0]
        e.oblige("pieces", node, st, True if v == BUILT else None, "the result is not what was read")


def adopt(rep, w, tag):
    for k, (n, bad, un) in w.e.oblig.items():
        if k[0] in KINDS and not bad and not un:
            rep.ok()
            rep.count(k[0])
    for k, x in w.e.findings.items():
        rep.violation("%s/%s/%s" % (tag, k[0], x["fn"]), "%s (%s)" % (x["loc"], x["fn"]), x["msg"], list(x["trace"])[-10:])
    for k, m in w.e.unresolved.items():
        rep.unresolved(tag + "/" + "/".join(map(str, k)), m)


def strparam(p, f):
    """Number of the only parameter that is a text."""
    ix = [i for i, x in enumerate(f["ps"]) if "string" in x["t"]]
    return ix[0] if len(ix) == 1 else None


def syllables(p, rep):
    fs = [f for f in p.fns.values() if f["name"] == "SylString::SylString" and len(f["ps"]) == 1 and strparam(p, f) == 0 and f.get("b")]
    if len(fs) != 1:
        raise AnalysisBroken("reading of a description not found")
    f = fs[0]
    w = DescWorld(p, ",", "Syl", "Syl", True)
    st = w.start()
    o = ("ref", ("t", 0, "self"), ())
    st.store[("t", 0, "self")] = ("r", "SylString", tuple(
        ("A", ()) if w.e.lib.base(p.ty(t).get("name") or "") in LISTS else unk("field") for n, t in w.e.fieldtypes("SylString")))
    run(w, rep, "syllables", f, st, [("ref", ("t", 0, "desc"), ())], o)


def readings(p, rep):
    """The function that divides a description into readings."""
    fs = []
    for f in p.fns.values():
        t = p.ty(f["f"].get("rt") or "")
        if f.get("b") and strparam(p, f) is not None and len(f["ps"]) == 1 and lib.base(t.get("name") or "") in LISTS and [p.ty(x).get("name") for x in (t.get("targs") or ())[:1]] == ["SylString"]:
            fs.append(f)
    if len(fs) != 1:
        rep.unresolved("readings", "the function that divides descriptions is not found")
        return None
    f = fs[0]
    w = DescWorld(p, ";", "SylString", "SylString", False)
    run(w, rep, "readings", f, w.start(), [("ref", ("t", 0, "desc"), ())], None)
    return f


class Shifted:
    """Every syllable is left with its end moved by the offset."""

    def __init__(self, X):
        self.X = X

    def start(self):
        return 0

    def step(self, s, t):
        if t[0] == "#m" and t[1] == self.X and t[2] != "moved":
            return t[2]
        return s

    def final(self, s):
        return None


def moving(p, rep):
    """All end positions of a reading are moved."""
    f = latt.fn(p, "SylString::shiftEndPos")
    w = latt.World(p)
    w.e.refvars, w.e.statics = set(), {}
    off = ("par", "offset")

    def elem(eng, st, t, nm):
        st.dbm.add(Z, ("pos", nm, "syl"), -1)
        return [(st, w.syl(st, nm, "syl"))]

    def fact(st, X):
        v = st.store.get(("ge", name(X)))
        if v is None:
            return "the end position of a syllable is not moved"
        if v[0] != "r":
            return "UNKNOWN: syllable"
        pos = sym(("pos", name(X), "syl"))
        x = [y for y in v[2] if y[0] in ("l", "unk")]
        if len(x) != 1 or x[0][0] != "l":
            return "UNKNOWN: end position"
        return "moved" if x[0] == aff_add(pos, sym(off)) else "the end position of a syllable is not moved by the offset"
    w.seq.factfn = fact
    w.seq.elem = elem
    st = St()
    st.store[latt.LOG] = ("T", ())
    st.store[("t", 0, "arg")] = w.fresh(st, "SylString", "arg")
    X = latt.top(st.store[("t", 0, "arg")])
    w.seq.classkey = lambda st: w.seq.state(st, X)[0]
    ends = w.e.invoke(st, f, [sym(off)], ("ref", ("t", 0, "arg"), ()), {"l": "entry", "k": "mcall"})
    for st, v in ends:
        if st.taint:
            rep.unresolved("moving", str(st.taint))
            continue
        if w.seq.state(st, X)[1] != "y":
            rep.violation("moving/all", latt.place(f), "stops before all syllables are moved", st.trace())
        latt.verdict(rep, w, st, st.store[latt.LOG][1], Shifted(X), "moving", f)
    if not ends:
        rep.unresolved("moving", "does not return")
    latt.adopt(rep, w, "moving", latt.ITER)


RD = ("gst", "readings")


class Uses(parse.Parse):
    """The analyser with entries that have two readings each."""
    divider = None

    def __init__(self, p, inv):
        parse.Parse.__init__(self, p, inv)
        self.e.hooks[Uses.divider] = self.divide
        self.e.followed = lambda c: all(x[:2] == ("gh", "syls") for x in c[1])

    def divide(self, eng, st, node, obj, args, f):
        v = eng.val(st, args[0])
        if v[0] == "s" and len(v[1]) == 1 and v[1][0][0] == "ext" and v[1][0][1][:1] == ("dict",):
            t = v[1][0][1]
            st.store[RD] = ("gh", "rd", (), t[2])
            return [(st, ("A", tuple(("gh", "syls", I(0), t[1], t[2], k) for k in ("first", "second"))))]
        return None

    def shift(self, eng, st, node, obj, args, f):
        g = eng.read(st, obj)
        r = parse.Parse.shift(self, eng, st, node, obj, args, f)
        if r and g[0] == "gh" and len(g) > 5:
            eng.write(st, obj, eng.read(st, obj) + g[5:])
        return r

    def assign(self, eng, st, node, obj, args, f):
        r = st.store.get(RD)
        if r is not None and len(r) > 4 and r[4] == obj:
            st.store[RD] = r[:2] + ((),) + r[3:4]
        return parse.Parse.assign(self, eng, st, node, obj, args, f)

    def addsyls(self, eng, st, node, obj, args, f):
        g = eng.val(st, args[1])
        r = parse.Parse.addsyls(self, eng, st, node, obj, args, f)
        if r and g[0] == "gh" and len(g) > 5 and RD in st.store:
            x = st.store[RD]
            if g[5] not in x[2]:
                st.store[RD] = x[:2] + (tuple(sorted(x[2] + (g[5],))), x[3], obj)
        return r

    def onadd(self, eng, st, node, x, pos, stop, g):
        r = st.store.get(RD)
        if r is not None and r[:2] == ("gh", "rd"):
            if self.eq(st, pos, r[3]) is True:
                eng.oblige("readings", node, st, len(r[2]) == 2, "an entry of the dictionary is used without all of its readings")
            st.store.pop(RD, None)


def uses(p, rep, f):
    Uses.divider = f["name"]
    try:
        a, outs = parse.analyse(p, Uses)
    except NoFixpoint as x:
        a = x.analysis
        rep.unresolved("uses", str(x))
    e = a.e
    for k, (n, bad, un) in e.oblig.items():
        if k[0] in ("readings", "edge-label", "edge-from") and not bad and not un:
            rep.ok()
            rep.count("uses")
    for k, x in e.findings.items():
        if k[0] == "readings":
            rep.violation("uses/%s" % x["fn"], "%s (%s)" % (x["loc"], x["fn"]), x["msg"], list(x["trace"])[-10:])
    for k, m in e.unresolved.items():
        if k[0] == "readings":
            rep.unresolved("uses/" + "/".join(map(str, k)), m)
    if not any(k[0] == "readings" for k in e.oblig):
        rep.unresolved("uses", "use of the readings is not followed")


def run(w, rep, tag, f, st, args, o):
    try:
        ends = w.e.invoke(st, f, args, o, {"l": f["l"], "k": "ctor" if o else "call"})
        node = {"l": f["l"], "k": "return"}
        for s, v in ends:
            w.end(s, node, w.e.read(s, o) if o else w.e.val(s, v))
        if not ends:
            rep.unresolved(tag, "does not return")
        rep.count("endings", len(ends))
    except NoFixpoint as x:
        rep.unresolved(tag, str(x))
    adopt(rep, w, tag)


RULE = ("the two functions that divide a description are interpreted on a text of unknown length made of any number of pieces: each piece, from "
        "its start to the separator or the end of the text, is made into one syllable or reading, in order, and none is left out; moving the "
        "end positions and attaching a reading to the graph are interpreted on any number of syllables; in the analyser, entries with two readings "
        "are followed until the partial analysis behind the entry is put back, which must have both readings in its graph")


def check(pid):
    rep = Report(pid, RULE)
    p = prog.Program()
    f = None
    for part in (syllables, moving, latt.building):
        try:
            part(p, rep)
        except NoFixpoint as x:
            rep.unresolved(part.__name__, str(x))
    try:
        f = readings(p, rep)
    except NoFixpoint as x:
        rep.unresolved("readings", str(x))
    if f is not None:
        uses(p, rep, f)
    if not rep.viol and not rep.unres:
        rep.floor("pieces", 4)
        rep.floor("languages", 2)
        rep.floor("uses", 2)
    return rep
