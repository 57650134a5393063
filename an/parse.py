"""C01-C05 and friends: the word parser, from its public entry point.

The parser is interpreted abstractly on an arbitrary text of symbolic length N
with symbolic characters.  The work pool is replaced by its invariant: a popped
partial analysis stands at a symbolic position P of the text with its current
word ending at S, and its graph has P as its only loose end.
"""
import os
import engine
import prog
import sounds
from dom import I, sym, aff_add, aff_scale, Z, UNDEF
from engine import St, VOID, NULL, TRUE, FALSE, unk, const
from prog import AnalysisBroken

P, S, N = "P", "S", "N"
EMPTY = ("dag", "E")


def lin(terms, k=0):
    v = I(k)
    for s, c in terms:
        v = aff_add(v, aff_scale(sym(s), c))
    return v


class Model:
    """Names the parser's data structures by what they are."""

    def __init__(self, p):
        self.p = p
        self.dagcls = "PronunDAG"
        if self.dagcls not in p.recs or "Parser" not in p.recs:
            raise AnalysisBroken("class PronunDAG or Parser not found")
        # the partial analysis: a record holding a pronunciation graph
        self.state = None
        for n, r in p.recs.items():
            ft = [(f["n"], p.ty(f["t"]).get("name") if p.cat(f["t"]) == "rec" else f["t"]) for f in r["fields"]]
            if any(t == self.dagcls for _, t in ft) and not r.get("lambda") and len(ft) > 1:
                ints = [f for f, t in ft if p.cat(t) == "int"]
                if len(ints) >= 2:
                    self.state = n
                    self.pos = "pos" if "pos" in ints else ints[0]
                    rest = [f for f in ints if f != self.pos]
                    self.stop = "stopPos" if "stopPos" in rest else rest[0]
                    self.dag = [f for f, t in ft if t == self.dagcls][0]
        if self.state is None:
            raise AnalysisBroken("no record for a partial analysis (graph plus positions)")
        # the pool: a record with a container of partial analyses
        self.pool = self.add = self.pop = None
        for n, r in p.recs.items():
            for f in r["fields"]:
                ty = p.ty(f["t"])
                if ty.get("cat") == "rec" and ty.get("targs") and p.ty(ty["targs"][0]).get("name") == self.state:
                    self.pool = n
        if self.pool is None:
            raise AnalysisBroken("no pool of partial analyses")
        for f in p.fns.values():
            i = f["f"]
            if i.get("crec") != self.pool or f.get("ctor"):
                continue
            if len(i["pt"]) == 1 and i["pt"][0].replace("const ", "").lstrip("&") == self.state:
                if i["pt"][0].startswith("&") and "const" not in i["pt"][0] and i["rt"] == "bool":
                    self.pop = f
                else:
                    self.add = f
        if self.add is None or self.pop is None:
            raise AnalysisBroken("pool operations not found")
        # positions of the syllable fields behind the public accessors
        self.syl = {}
        e = engine.Engine(p)
        for a in ("iCons1", "iCons2", "vowel", "eCons", "tone", "endPos", "literal"):
            fn = p.fn("Syl::" + a)
            st = St()
            lay = e.layout("Syl")
            st.store[("t", 0, "x")] = ("r", "Syl", tuple(unk(("field", i)) for i in range(len(lay))))
            r = e.invoke(st, fn, [], ("ref", ("t", 0, "x"), ()), {"l": "?"})
            v = r[0][1]
            if v[0] == "ref":
                v = e.read(r[0][0], v)
            if v[0] != "unk" or v[1][0] != "field":
                raise AnalysisBroken("accessor Syl::%s does not return a field" % a)
            self.syl[a] = v[1][1]


class Parse:
    def __init__(self, p, inv=None, events=True):
        self.p = p
        self.m = Model(p)
        self.inv = inv
        self.e = e = engine.Engine(p)
        self.snd = sounds.Sounds(self.m, e)
        self.events = []
        self.adds = []
        self.bad_inv = set()
        self.popped = []
        self.npop = 0
        e.pinned = {P, S, N}
        e.unroll = 1
        e.usepure = True
        e.joinhead = self.poploop
        e.atback = self.atback
        e.maxnum = 4
        e.maxgroup = 1
        e.jobs = min(8, os.cpu_count() or 1)
        e.par_collect = self.par_collect
        e.par_absorb = self.par_absorb
        e.canon_order = (P, N)
        e.typedefaults = {self.m.dagcls: EMPTY, self.m.pool: ("pool",)}
        e.val_join = self.val_join
        e.str_join = lambda a, b: ("s", (("ext", "joined"),))
        e.convert = self.convert
        e.elem_hook = self.elem
        h = e.hooks
        h["th_brk_wc_find_breaks"] = self.breaks
        h["th_brk_new"] = lambda e, st, n, o, a, f: [(st, NULL), (st.fork(), ("ref", ("h", "thbrk"), ()))]
        h["th_brk_delete"] = lambda e, st, n, o, a, f: [(st, VOID)]
        h["PronunDAG::PronunDAG"] = self.dagctor
        h["DAG::DAG"] = self.dagctor
        h["PronunDAG::operator="] = self.assign
        h["DAG::operator="] = self.assign
        h["DAG::addEdge"] = self.addedge
        h["DAG::removeEdge"] = self.removeedge
        h["DAG::inDegree"] = self.indegree
        h["DAG::inEdges"] = self.inedges
        h["DAG::unionDAG"] = self.union
        h["PronunDAG::addSylString"] = self.addsyls
        h["SylString::SylString"] = self.sylsctor
        h["SylString::shiftEndPos"] = self.shift
        h["Match::Match"] = self.matchctor
        h["Match::findNext"] = self.findnext
        h["Match::getCurPos"] = self.curpos
        h["Match::getData"] = self.getdata
        h[self.m.add["name"]] = self.pooladd
        h[self.m.pop["name"]] = self.poolpop

    def par_collect(self, start):
        if start:
            self.events, self.bad_inv = [], set()
            return None
        return self.events, self.bad_inv

    def par_absorb(self, x):
        self.events += x[0]
        self.bad_inv |= x[1]

    # -- helpers ---------------------------------------------------------
    def eq(self, st, a, b):
        """True / False / None: do two node numbers agree?"""
        if a[0] != "l" or b[0] != "l":
            return None
        d = aff_add(a, b, -1)
        lo, hi = self.e.lo(st, d), self.e.hi(st, d)
        if lo == 0 and hi == 0:
            return True
        if lo is not None and lo > 0 or hi is not None and hi < 0:
            return False
        return None

    def member(self, st, a, xs):
        return any(self.eq(st, a, x) is True for x in xs)

    def sylf(self, v, a):
        if v[0] != "r" or v[1] != "Syl":
            return unk("syllable")
        return v[2][self.m.syl[a]]

    def val_join(self, eng, lk, root, path, a, b):
        if a[0] == "dag" and b[0] == "dag":
            if a == EMPTY:
                return b
            if b == EMPTY:
                return a
            return ("dag", a[1] | b[1], a[2] & b[2])
        return None

    def poploop(self, c):
        """Is this the condition of the loop that takes analyses from the pool?"""
        if c is None:
            return False
        for n in prog.walk(c):
            if isinstance(n.get("f"), dict) and n["f"].get("id") == self.m.pop["id"]:
                return True
        return False

    # -- environment -----------------------------------------------------
    def convert(self, eng, st, e, m, args):
        if m == "from_bytes":
            eng.throw(st.fork(), "std::range_error", e)
            st.dbm.add(Z, N, 0)
            return [(st, ("txt", "W", N))]
        return None

    def breaks(self, eng, st, node, obj, args, f):
        buf = args[2]
        n = eng.val(st, args[3])
        q = eng.val(st, buf)
        size = q[2] if q[0] == "Q" else I(len(q[1])) if q[0] == "A" else None
        if n[0] == "l" and size is not None and size[0] == "l":
            eng.oblige("buffer", node, st, eng.prove_le(st, aff_add(n, size, -1)), "more room promised than the buffer has")
        r = ("nbrk",)
        eng.drop_sym(st, r)
        st.dbm.add(Z, r, 0)
        if n[0] == "l":
            eng.assume_le(st, aff_add(sym(r), n, -1))
        if buf[0] == "ref" and q[0] in ("Q", "A"):
            eng.write(st, buf, ("Q", q[1] if q[0] == "Q" else "std::vector<int>", size, "brk"))
        return [(st, sym(r))]

    def elem(self, eng, st, c, name):
        if c[3] == "brk":
            if isinstance(name, tuple) and name[0] == "at" and name[2][0] == "l":
                s = ("elt", "brk", name[2])
            else:
                s = ("brk", name)
                eng.drop_sym(st, s)
            st.dbm.add(Z, s, 0)
            st.dbm.add(s, N, 0)
            return sym(s)
        return None

    # -- graph -----------------------------------------------------------
    def dagctor(self, eng, st, node, obj, args, f):
        if not args:
            return [(st, EMPTY)]
        v = eng.val(st, args[0])
        if v[0] == "dag":
            return [(st, v)]
        return None

    def assign(self, eng, st, node, obj, args, f):
        v = eng.val(st, args[0])
        eng.write(st, obj, v)
        return [(st, obj)]

    def isdag(self, eng, st, obj):
        return eng.read(st, obj)[0] == "dag"

    def addedge(self, eng, st, node, obj, args, f):
        g = eng.read(st, obj)
        if g[0] != "dag":
            return None
        a, b = eng.val(st, args[0]), eng.val(st, args[1])
        lab = eng.val(st, args[2])
        self.edge(eng, st, node, obj, g, a, b, lab)
        return [(st, TRUE)]

    def edge(self, eng, st, node, obj, g, a, b, lab):
        if a[0] != "l" or b[0] != "l":
            eng.oblige("edge", node, st, None, "edge between unknown nodes")
            eng.write(st, obj, unk("graph"))
            return
        end = self.sylf(lab, "endPos")
        ok = self.eq(st, end, b)
        eng.oblige("edge-label", node, st, ok is True, "syllable records end %s but its edge ends at %s" % (
            eng.affname(end), eng.affname(b)))
        if g == EMPTY:
            tips, nodes = frozenset(), frozenset()
            src = self.eq(st, a, I(0)) is True
        else:
            tips, nodes = g[1], g[2]
            src = self.member(st, a, tips | nodes)
        eng.oblige("edge-from", node, st, src, "edge starts at %s, which no path of the graph reaches" % eng.affname(a))
        neg = self.isneg(st, b)
        if neg is False:
            beg = self.start_of(st, a)
            fwd = beg is not None and self.e.prove_le(st, aff_add(beg, b, -1), -1)
            eng.oblige("edge-forward", node, st, fwd, "edge from %s to %s does not move forward" % (eng.affname(a), eng.affname(b)))
        was = st.store.get(self.STRETCH)
        if was is not None and len(was) > 2 and self.eq(st, a, was[2]) is True:
            k = self.m.syl["endPos"]
            same = lab[0] == "r" and lab[2][:k] + lab[2][k + 1:] == was[4][2][:k] + was[4][2][k + 1:]
            eng.oblige("moved-label", node, st, same, "the syllable on a moved edge changes")
        else:
            self.record(eng, st, node, a, b, lab, neg)
        tips = frozenset(t for t in tips if self.eq(st, t, a) is not True) | {b}
        eng.write(st, obj, ("dag", tips, nodes | {a}))

    def isneg(self, st, b):
        """Marker of a pre-syllable: a negative node."""
        lo, hi = self.e.lo(st, b), self.e.hi(st, b)
        if hi is not None and hi < 0:
            return True
        if lo is not None and lo >= 0:
            return False
        return None

    def start_of(self, st, a):
        if self.isneg(st, a) is True:
            # -(100 P + end): the text position behind a marker is P
            return sym(P)
        return a

    PRE = ("gst", "pre")

    def record(self, eng, st, node, a, b, lab, neg):
        """Judge the syllable on a new edge."""
        if lab[0] != "r":
            eng.oblige("complete", node, st, None, "unknown syllable")
            return
        lit = lab[2][self.m.syl["literal"]]
        if lit != ("s", ()):
            self.literal(eng, st, node, a, b, lit)
            return
        aneg = self.isneg(st, a)
        pre = None
        if aneg is True:
            role, base, end = "second", sym(P), b
            pre = st.store.pop(self.PRE, ("c", None))[1]
        elif neg is True:
            role, base, end = "pre", a, None
            v = lab[2][self.m.syl["vowel"]]
            st.store[self.PRE] = ("c", self.snd.name["EVowel"].get(const(v)))
        else:
            role, base, end = "normal", a, b
        for kind, ok, msg in self.snd.judge(st, base, end, lab, role, pre):
            eng.oblige(kind, node, st, ok, msg, tag=role)

    def literal(self, eng, st, node, a, b, lit):
        """A literal must be the text between its positions."""
        ok = False
        if lit[0] == "s" and len(lit[1]) == 1 and lit[1][0][0] == "sub":
            ok = self.issub(eng, st, lit[1][0], a, b)
        eng.oblige("literal", node, st, ok, "foreign text is not the text from %s to %s: %s" % (eng.affname(a), eng.affname(b), lit))

    def issub(self, eng, st, pc, a, b):
        return pc[1] == "W" and self.eq(st, pc[2], a) is True and self.eq(st, aff_add(pc[2], pc[3]), b) is True

    # -- moving the edges that end at a node ------------------------------
    STRETCH = ("gst", "stretch")

    def indegree(self, eng, st, node, obj, args, f):
        g = eng.read(st, obj)
        n = eng.val(st, args[0])
        if g[0] != "dag" or n[0] != "l":
            return None
        if g == EMPTY or not self.member(st, n, g[1]):
            return None
        was = st.store.get(self.STRETCH)
        if was is not None and was[1] == "open":
            eng.oblige("progress", node, st, False, "an edge ending at %s was looked at but not taken away, and the loop asks again" % eng.affname(n))
            return []
        eng.oblige("progress", node, st, True)
        none = st.fork()
        out = []
        if was is not None or not eng.prove_le(st, aff_scale(n, -1), -1):
            gg = ("dag", frozenset(t for t in g[1] if self.eq(st, t, n) is not True), g[2])
            eng.write(none, obj, gg)
            none.store.pop(self.STRETCH, None)
            out.append((none, I(0)))
        if was is not None:
            st.store[self.STRETCH] = ("c", "done")
        d = ("deg",)
        eng.drop_sym(st, d)
        st.dbm.add(Z, d, -1)
        return out + [(st, sym(d))]

    def inedges(self, eng, st, node, obj, args, f):
        g = eng.read(st, obj)
        n = eng.val(st, args[0])
        if g[0] != "dag" or n[0] != "l" or not self.member(st, n, g[1]):
            return None
        ty = eng.p.ty(f["rt"])
        x = ("X",)
        g = ("dag", frozenset(t for t in g[1] if x not in dict(t[1])), frozenset(t for t in g[2] if x not in dict(t[1])))
        eng.drop_sym(st, x)
        eng.assume_le(st, aff_add(sym(x), n, -1), -1)
        edge = [c for c in eng.p.recs if c.startswith("DAGEdge<Syl")]
        if len(edge) != 1:
            return None
        vals = []
        for fn, ft in eng.fieldtypes("Syl"):
            eng.drop_sym(st, ("lab", fn))
            vals.append(eng.fresh(st, ft, ("lab", fn)))
        vals[self.m.syl["endPos"]] = n
        lab = ("r", "Syl", tuple(vals))
        er = []
        for fn, ft in eng.fieldtypes(edge[0]):
            er.append(sym(x) if eng.p.cat(ft) == "int" else lab)
        root = ("h", "inedge")
        st.store[root] = ("A", (("r", "std::pair<>", (n, ("r", edge[0], tuple(er)))),))
        st.store[self.STRETCH] = ("c", "open", sym(x), n, lab)
        eng.write(st, obj, ("dag", g[1], g[2] | {sym(x)}))
        it = ("it", ("ref", root, ()), 0)
        return [(st, ("r", "std::pair<>", (it, ("end", ("ref", root, ())))))]

    def removeedge(self, eng, st, node, obj, args, f):
        g = eng.read(st, obj)
        if g[0] != "dag":
            return None
        a, b, lab = (eng.val(st, x) for x in args[:3])
        was = st.store.get(self.STRETCH)
        if was is None or was[1] != "open":
            return None
        ok = self.eq(st, a, was[2]) is True and self.eq(st, b, was[3]) is True and lab == was[4]
        eng.oblige("remove", node, st, ok, "takes away an edge other than the one it moved")
        st.store[self.STRETCH] = ("c", "closed") + was[2:]
        return [(st, TRUE)]

    def union(self, eng, st, node, obj, args, f):
        g = eng.read(st, obj)
        o = eng.val(st, args[0])
        if g[0] != "dag" or o[0] != "dag":
            return None
        if o == EMPTY:
            if self.POPPED in st.store:
                st.store[self.KEPT] = TRUE
            eng.oblige("union", node, st, True)
            return [(st, VOID)]
        ok = all(self.eq(st, t, sym(N)) is True for t in o[1])
        eng.oblige("result-end", node, st, ok, "a finished analysis does not end at the end of the text")
        if self.POPPED in st.store:
            st.store[self.KEPT] = TRUE
        eng.write(st, obj, ("dag", frozenset({sym(N)}), frozenset()))
        return [(st, VOID)]

    # -- dictionary ------------------------------------------------------
    def matchctor(self, eng, st, node, obj, args, f):
        if len(args) < 3:
            return [(st, eng.val(st, args[0]))]
        d = eng.val(st, args[2])
        if args[2] == NULL:
            eng.oblige("null-deref", node, st, False, "looks words up in a missing dictionary")
            return []
        b = eng.val(st, args[1])
        return [(st, ("gh", "match", b, b))]

    def findnext(self, eng, st, node, obj, args, f):
        g = eng.read(st, obj)
        if g[0] != "gh":
            return None
        q = st.fork()
        eng.rename(st, {"M": "M'"})
        g = eng.read(st, obj)
        ok = eng.assume_le(st, aff_add(g[3], sym("M"), -1), -1)
        ok = ok and eng.assume_le(ok, aff_add(sym("M"), sym(N), -1), 0)
        eng.write(st, obj, ("gh", "match", g[2], sym("M")))
        eng.drop_sym(st, "M'")
        return [(q, FALSE)] + ([(st, TRUE)] if ok else [])

    def curpos(self, eng, st, node, obj, args, f):
        g = eng.read(st, obj)
        return [(st, g[3])] if g[0] == "gh" else None

    def getdata(self, eng, st, node, obj, args, f):
        g = eng.read(st, obj)
        return [(st, ("s", (("ext", ("dict", g[2], g[3])),)))] if g[0] == "gh" else None

    def sylsctor(self, eng, st, node, obj, args, f):
        if not args:
            return None
        v = eng.val(st, args[0])
        if v[0] == "gh":
            return [(st, v)]
        if v[0] == "s" and len(v[1]) == 1 and v[1][0][0] == "ext":
            t = v[1][0][1]
            if t[0] == "part":
                t = t[1]
            if t[0] == "dict":
                return [(st, ("gh", "syls", I(0), t[1], t[2]))]
        return None

    def shift(self, eng, st, node, obj, args, f):
        g = eng.read(st, obj)
        if g[0] != "gh":
            return None
        eng.write(st, obj, ("gh", "syls", aff_add(g[2], eng.val(st, args[0])), g[3], g[4]))
        return [(st, VOID)]

    def addsyls(self, eng, st, node, obj, args, f):
        d = eng.read(st, obj)
        g = eng.val(st, args[1])
        a = eng.val(st, args[0])
        if d[0] != "dag" or g[0] != "gh" or a[0] != "l":
            return None
        ok = self.eq(st, g[2], a) is True and self.eq(st, g[3], a) is True
        eng.oblige("edge-label", node, st, ok, "dictionary syllables are not moved to where they are attached")
        tips, nodes = (d[1], d[2]) if d != EMPTY else (frozenset(), frozenset())
        src = self.member(st, a, tips | nodes) or d == EMPTY and self.eq(st, a, I(0)) is True
        eng.oblige("edge-from", node, st, src, "dictionary syllables attached at %s, which no path reaches" % eng.affname(a))
        tips = frozenset(t for t in tips if self.eq(st, t, a) is not True) | {g[4]}
        eng.write(st, obj, ("dag", tips, nodes | {a}))
        return [(st, VOID)]

    # -- pool ------------------------------------------------------------
    INV = (("0<=pos", (("p", -1),), 0), ("0<=stop", (("s", -1),), 0), ("pos<=stop", (("p", 1), ("s", -1)), 0),
           ("stop<=N", (("s", 1), ("n", -1)), 0), ("pos<=N", (("p", 1), ("n", -1)), 0))

    def fields(self, x):
        lay = self.e.layout(self.m.state)
        g = dict(zip(lay, x[2]))
        return g[self.m.pos], g[self.m.stop], g[self.m.dag]

    POPPED = ("gst", "popped")
    KEPT = ("gst", "kept")         # the finished analysis has been taken into the result
    DRAINED = ("gst", "drained")   # the pool is known to be empty

    def pooladd(self, eng, st, node, obj, args, f):
        x = eng.val(st, args[0])
        if x[0] != "r":
            eng.oblige("pool", node, st, None, "unknown partial analysis added")
            return [(st, VOID)]
        pos, stop, g = self.fields(x)
        if pos[0] != "l" or stop[0] != "l" or g[0] != "dag":
            eng.oblige("pool", node, st, None, "unknown partial analysis added")
            return [(st, VOID)]
        env = {"p": pos, "s": stop, "n": sym(N)}
        for name, terms, k in self.INV:
            if name in self.bad_inv:
                continue
            v = I(0)
            for t, c in terms:
                v = aff_add(v, aff_scale(env[t], c))
            if not eng.prove_le(st, v, k):
                self.bad_inv.add(name)
                st.note(eng.where(node), "breaks " + name)
        if g == EMPTY:
            ok = self.eq(st, pos, I(0)) is True
        else:
            ok = len(g[1]) >= 1 and all(self.eq(st, t, pos) is True for t in g[1])
        eng.oblige("state-end", node, st, ok, "partial analysis at %s has a graph ending at %s" % (
            eng.affname(pos), "/".join(eng.affname(t) for t in g[1]) if g != EMPTY else "0"))
        if self.POPPED in st.store:
            prog_ = eng.prove_le(st, aff_add(sym(P), pos, -1), -1)
            if not prog_ and self.eq(st, pos, sym(P)) is True:
                prog_ = eng.prove_le(st, aff_add(sym(S), sym(P), -1), 0) and (
                    eng.prove_le(st, aff_add(pos, stop, -1), -1) or self.eq(st, pos, sym(N)) is True)
            eng.oblige("progress", node, st, prog_, "puts back an analysis at %s without having moved on" % eng.affname(pos))
        self.onadd(eng, st, node, x, pos, stop, g)
        st.store.pop(self.DRAINED, None)
        if self.POPPED in st.store and not eng.prove_le(st, aff_add(sym(P), sym(S), -1), -1):
            st.store[self.KEPT] = TRUE
        return [(st, VOID)]

    def onadd(self, eng, st, node, x, pos, stop, g):
        pass

    def settle(self, st, node):
        """Another analysis is taken up: a finished one must have been united into the result."""
        if self.POPPED in st.store and st.store.get(self.KEPT) != FALSE:
            ok = self.KEPT in st.store or self.e.prove_le(st, aff_add(sym(P), sym(N), -1), -1) and self.e.prove_le(st, aff_add(sym(P), sym(S), -1), -1)
            self.e.oblige("kept", node, st, ok, "an analysis that has come to the end of the text or of a word is dropped")
        st.store.pop(self.KEPT, None)

    def atback(self, st, node):
        self.settle(st, node)
        st.store[self.KEPT] = FALSE

    def poolpop(self, eng, st, node, obj, args, f):
        self.npop += 1
        self.settle(st, node)
        st.store[self.POPPED] = TRUE
        st.store.pop(self.DRAINED, None)
        q = st.fork()
        q.store[self.DRAINED] = TRUE
        eng.rename(st, {P: "P'", S: "S'"})
        for s in list(st.dom):
            if s[0] == "ch":
                eng.drop_sym(st, s)
        eng.drop_sym(st, "P'")
        eng.drop_sym(st, "S'")
        for s, m in list(st.dom.items()):
            if s[0] == "parser":
                del st.dom[s]
        st.store.pop(("h", "inedge"), None)
        eng.drop_sym(st, ("X",))
        st.dbm.d = {k: v for k, v in st.dbm.d.items() if not (k[0] in (Z, N) and k[1] in (Z, N))}
        st.dbm.add(Z, N, 0)
        for name, terms, k in self.INV:
            if name in self.inv:
                env = {"p": P, "s": S, "n": N}
                v = I(0)
                for t, c in terms:
                    v = aff_add(v, aff_scale(sym(env[t]), c))
                eng.assume_le(st, v, k)
        lay = eng.fieldtypes(self.m.state)
        vals = []
        for n, t in lay:
            if n == self.m.pos:
                vals.append(sym(P))
            elif n == self.m.stop:
                vals.append(sym(S))
            elif n == self.m.dag:
                vals.append(("dag", frozenset({sym(P)}), frozenset()))
            else:
                eng.drop_sym(st, ("state", n))
                vals.append(eng.fresh(st, t, ("state", n)))
        eng.write(st, args[0], ("r", self.m.state, tuple(vals)))
        eng.gc(st)
        # already analysed from here?
        key = eng.same_key(st)
        for k, old in self.popped:
            if (k == key or self.covers(old, st)) and eng.try_join(st, old) is old:
                return [(q, FALSE)]
        self.popped.append((key, st.fork()))
        return [(q, FALSE), (st, TRUE)]

    def covers(self, old, st):
        """Does old differ only in having an unknown sequence where st has an empty one?"""
        if old.taint != st.taint or old.store.keys() != st.store.keys():
            return False
        for r, v in st.store.items():
            o = old.store[r]
            if o != v and not (o[0] == "Q" and o[3] == "brk" and v == ("A", ())):
                return False
        return True

    # -- driver ----------------------------------------------------------
    def run(self):
        e = self.e
        entry = {"k": "call", "l": "entry"}
        fn = self.p.fn("Parser::parseWord")
        root = ("t", 0, "parser")
        outs = []
        # with word breaks and a dictionary first: the other cases are covered by it
        for full in (False, True):
            st = St()
            st.store[root] = self.parser_object(st)
            if not full:
                for n, t in e.fieldtypes("Parser"):
                    if self.p.cat(t) != "ptr":
                        continue
                    st.dom[("parser", n)] = 1
            outs += e.invoke(st, fn, [("s", (("ext", "word"),))], ("ref", root, ()), entry)
        for s2, v in outs:
            if v[0] != "dag":
                e.oblige("result", entry, s2, None, "result is not followed")
            if self.POPPED in s2.store:
                e.oblige("drained", entry, s2, self.DRAINED in s2.store, "returns although partial analyses may be left")
        if any(k[0] == "result-end" for k in e.oblig) and outs and all(v == EMPTY for _, v in outs):
            e.oblige("drained", entry, outs[-1][0], False, "what is returned is not where finished analyses are collected")
        return outs

    def parser_object(self, st):
        vals = []
        for n, t in self.e.fieldtypes("Parser"):
            vals.append(("f", ("parser", n), self.e.uni("ptr" + n, (("ref", ("h", n), ()), None)).ident))
        return ("r", "Parser", tuple(vals))


def analyse(p, cls=Parse):
    inv = [x[0] for x in Parse.INV]
    while True:
        a = cls(p, inv)
        try:
            outs = a.run()
        except engine.NoFixpoint as x:
            x.analysis = a
            raise
        bad = a.bad_inv & set(inv)
        if not bad:
            return a, outs
        inv = [x for x in inv if x not in bad]


if __name__ == "__main__":
    import time
    t = time.time()
    p = prog.Program()
    a, outs = analyse(p)
    e = a.e
    print("inv", a.inv, "time", time.time() - t, "steps", e.steps, "lossy", e.lossy)
    print("results", [(v) for s, v in outs])
    kinds = {}
    for (k, l, tag), o in e.oblig.items():
        kinds.setdefault(k, [0, 0, 0, 0])
        kinds[k][0] += 1
        for i in range(3):
            kinds[k][i + 1] += o[i]
    for k, v in kinds.items():
        print(k, v)
    for k, f in e.findings.items():
        print("FINDING", k, f["msg"], f["calls"][-3:], f["facts"])
        for x in f["trace"]:
            print("     ", x)
    for k, m in e.unresolved.items():
        print("UNRES", k, m)
    print("unmodelled", e.unmodelled)
    for s, x in e.thrown[0]:
        print("THROWN", x, s.taint, s.trace()[-3:], e.facts(s))
