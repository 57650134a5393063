"""C11: comparing syllables and pronunciations is a consistent order.

The comparison operators are interpreted abstractly with the components of the
two operands unknown; each test of two components splits into less, equal and
greater.  The outcome of an operator is then a table over the signs of the
components, and the laws of an order are decided on the tables.  Sequences are
walked in step on lists of unknown length.
"""
import itertools

import engine
import prog
from common import Report
from dom import I, sym, Z
from engine import St, unk
from latt import relation, related, fn, place, SWorld, LOG
from outcheck import adopt
from prog import AnalysisBroken
from seq import name

OPS = ("<", ">", "<=", ">=", "==", "!=")


class Operands:
    """Two syllables of which only signs of component differences exist."""

    def __init__(self, p):
        self.p = p
        self.e = engine.Engine(p)
        self.e.unroll = 8
        self.fields = []
        for i, (n, t) in enumerate(self.e.fieldtypes("Syl")):
            ty = p.ty(t)
            kind = "lit" if "basic_string" in (ty.get("name") or "") or "string" in (ty.get("name") or "") else "pos" if ty.get("cat") == "int" else "comp"
            self.fields.append(kind)
        if self.fields.count("lit") != 1 or self.fields.count("pos") != 1 or self.fields.count("comp") < 5:
            raise AnalysisBroken("components of a syllable not recognised: %s" % self.fields)
        cmp0, dis0 = self.e.cmp, self.e.dispatch_method

        def cmp(st, op, a, b, node=None):
            if a[0] == "opq" and b[0] == "opq":
                return relation(st, a[1], b[1], op)
            return cmp0(st, op, a, b, node)

        def dispatch(st, e, f, o, args):
            v = self.e.read(st, o)
            m = f["n"].split("::")[-1]
            if v[0] == "opq" and m in ("size", "length", "empty"):
                s = ("filled", v[1])
                out = []
                for b in (1, 2):
                    d = st.dom.get(s, 3) & b
                    if d:
                        q = st.fork()
                        q.dom[s] = d
                        if m == "empty":
                            r = ("c", b == 1)
                        elif b == 1:
                            r = I(0)
                        else:
                            q.dbm.add(Z, ("size", v[1]), -1)
                            r = sym(("size", v[1]))
                        out.append((q, r))
                return out
            return dis0(st, e, f, o, args)
        self.e.cmp = cmp
        self.e.dispatch_method = dispatch

    def value(self, who):
        return ("r", "Syl", tuple(("opq", (who, i)) for i in range(len(self.fields))))

    def table(self, op, rep):
        """Paths of the operator as (dom, outcome), or None."""
        f = fn(self.p, "Syl::operator" + op, ["Syl"])
        st = St()
        st.store[("t", 0, "a")] = self.value("a")
        st.store[("t", 0, "b")] = self.value("b")
        res = self.e.invoke(st, f, [("ref", ("t", 0, "b"), ())], ("ref", ("t", 0, "a"), ()), {"l": "entry", "k": "mcall"})
        out = []
        for st, v in res:
            if st.taint or v[0] != "c":
                rep.unresolved("Syl/" + op, str(st.taint or v[:2]))
                return None
            out.append((dict(st.dom), bool(v[1]), st.trace()))
        if not res:
            rep.unresolved("Syl/" + op, "does not return")
            return None
        return out, f

    def signs(self, pair):
        """All sign vectors for a pair of kinds ('t' text, 's' syllable)."""
        rng = []
        for k in self.fields:
            if pair[0] != pair[1]:
                rng.append((0,) if k == "comp" and False else (0,))
            elif k == "pos":
                rng.append((-1, 0, 1))
            elif k == "lit":
                rng.append((-1, 0, 1) if pair == "tt" else (0,))
            else:
                rng.append((-1, 0, 1) if pair == "ss" else (0,))
        return itertools.product(*rng)

    def outcome(self, tab, pair, v):
        i = self.fields.index("lit")
        got = set()
        for dom, r, _ in tab:
            if not dom.get(("filled", ("a", i)), 3) & (2 if pair[0] == "t" else 1):
                continue
            if not dom.get(("filled", ("b", i)), 3) & (2 if pair[1] == "t" else 1):
                continue
            ok = True
            for j, s in enumerate(v):
                m = dom.get(("rel", ("a", j), ("b", j)), 7)
                if pair[0] != pair[1] and self.fields[j] != "pos":
                    # the components of a text say nothing
                    continue
                if not m & (1, 2, 4)[s + 1]:
                    ok = False
                    break
            if ok:
                got.add(r)
        return got


def syllables(p, rep):
    w = Operands(p)
    tabs, fns = {}, {}
    for op in OPS:
        t = w.table(op, rep)
        if t is None:
            return
        tabs[op], fns[op] = t
        rep.count("paths", len(t[0]))
    pairs = ("ss", "tt", "st", "ts")
    T = {}
    crossed = set()
    for op in OPS:
        for pair in pairs:
            for v in w.signs(pair):
                got = w.outcome(tabs[op], pair, v)
                if len(got) != 1:
                    crossed.add(op)
                    got = {None}
                T[op, pair, v] = next(iter(got))
    for op in sorted(crossed):
        rep.unresolved("Syl/" + op + "/signs", "compares components with components of another kind")
    if crossed:
        return
    rep.count("sign_vectors", len(T))
    neg = lambda v: tuple(-x for x in v)
    back = {"ss": "ss", "tt": "tt", "st": "ts", "ts": "st"}

    def law(key, op, msg, ok, pair, v):
        if ok:
            rep.ok()
        else:
            rep.violation("Syl/" + key, place(fns[op]), "%s, e.g. for %s operands with components %s" % (
                msg, {"ss": "two syllable", "tt": "two text", "st": "syllable and text", "ts": "text and syllable"}[pair],
                " ".join("%s%d%s" % (k, i, "<=>"[s + 1]) for i, (k, s) in enumerate(zip(w.fields, v)))))
    for pair in pairs:
        for v in w.signs(pair):
            g = lambda op: T[op, pair, v]
            same = pair in ("ss", "tt") and all(s == 0 for s, k in zip(v, w.fields) if k != "pos")
            law("equal", "==", "equality does not mean that all components are equal", g("==") == same, pair, v)
            law("unequal", "!=", "!= is not the opposite of ==", g("!=") != g("=="), pair, v)
            law("mirror", ">", "> is not < with the operands exchanged", g(">") == T["<", back[pair], neg(v)], pair, v)
            law("le", "<=", "<= is not the opposite of >", g("<=") != g(">"), pair, v)
            law("ge", ">=", ">= is not the opposite of <", g(">=") != g("<"), pair, v)
            law("both", "<", "an operand is both less and greater than the other", not (g("<") and g(">")), pair, v)
            if not g("=="):
                law("total", "<", "two different operands are neither less nor greater", g("<") or g(">"), pair, v)
            if not any(v) and pair in ("ss", "tt"):
                law("irreflexive", "<", "an operand is less than itself", not g("<"), pair, v)
    # transitivity: signs of (a, b) and (b, c) leave some signs possible for (a, c)
    comp = {(-1, -1): (-1,), (-1, 0): (-1,), (0, -1): (-1,), (0, 0): (0,), (0, 1): (1,), (1, 0): (1,), (1, 1): (1,), (-1, 1): (-1, 0, 1), (1, -1): (-1, 0, 1)}
    less = {pair: [v for v in w.signs(pair) if T["<", pair, v]] for pair in pairs}
    for x in "st":
        for y in "st":
            for z in "st":
                ac = x + z
                for u in less[x + y]:
                    for v in less[y + z]:
                        rep.count("triples")
                        if ac in ("st", "ts"):
                            rng = [(0,)] * len(u)
                        elif x != y:
                            rng = list(zip(*w.signs(ac)))
                            rng = [tuple(sorted(set(c))) for c in rng]
                        else:
                            rng = [comp[a, b] for a, b in zip(u, v)]
                        bad = next((t for t in itertools.product(*rng) if not T["<", ac, t]), None)
                        if bad is not None:
                            law("transitive", "<", "< is not transitive: a < b and b < c do not imply a < c", False, ac, bad)
    rep.ok()


# what two syllables (or pronunciations) may be to each other
LTN, GTN, LTE, GTE, EQV = 1, 2, 4, 8, 16
ALLR = 31
MASK = {"<": LTN | LTE, ">": GTN | GTE, "==": LTE | GTE | EQV, "!=": LTN | GTN, "<=": ALLR & ~(GTN | GTE), ">=": ALLR & ~(LTN | LTE)}
SWAP = {LTN: GTN, GTN: LTN, LTE: GTE, GTE: LTE, EQV: EQV}


def swap(m):
    return sum(SWAP[b] for b in SWAP if m & b)


def walk_hooks(w, cls):
    def hook(op):
        def h(eng, st, node, obj, args, fn_):
            a, b = eng.read(st, obj), eng.val(st, args[0])
            if a[0] != "opq" or b[0] != "opq":
                return None
            m = MASK[op]
            a, b = a[1], b[1]
            if repr(a) > repr(b):
                a, b, m = b, a, swap(m)
            s = ("gst", "cmp", a, b)
            d = st.store.get(s, ("c", ALLR))[1]
            out = []
            for x, r in ((d & m, True), (d & ~m, False)):
                if x:
                    q = st.fork()
                    q.store[s] = ("c", x)
                    out.append((q, ("c", r)))
            return out
        return h
    for op in OPS:
        w.e.hooks["%s::operator%s" % (cls, op)] = hook(op)


def between(st, a, b):
    if repr(a) > repr(b):
        return swap(st.store.get(("gst", "cmp", b, a), ("c", ALLR))[1])
    return st.store.get(("gst", "cmp", a, b), ("c", ALLR))[1]


class Step:
    """The two sequences are walked in step; what is passed must not decide."""

    def __init__(self, A, B, op, last):
        self.A, self.B, self.op, self.last = A, B, op, last

    def start(self):
        return (0, False)

    def step(self, s, t):
        if t[0] != "#m":
            return s
        if t[1] == self.A or t[1] == self.B:
            n, compared = s
            compared = compared or t[2] != ALLR
            if n == 0:
                same = MASK["=="] if self.op in ("==", "!=") else EQV
                m = t[2]
                if m & ~same:
                    return "goes on after two parts that may differ"
            n += 1 if t[1] == self.A else -1
            if abs(n) < 2:
                return (n, compared)
            return "compares parts at different places" if compared else "UNKNOWN: not walked in step"
        return s

    def final(self, s):
        if s[0]:
            return "UNKNOWN: not walked in step"
        ea, eb, m, v = self.last
        for a in "yn" if ea == "?" else ea:
            for b in "yn" if eb == "?" else eb:
                r = self.decided(a, b, m, v)
                if r:
                    return r
        return None

    ENDS = {"==": (True, False, False), "!=": (False, True, True), "<": (False, True, False), ">": (False, False, True),
            "<=": (True, True, False), ">=": (True, False, True)}

    def decided(self, ea, eb, m, v):
        if ea == "n" and eb == "n":
            if self.op in ("==", "!="):
                # equal parts do not decide
                yes, no = (0, MASK["!="]) if self.op == "==" else (MASK["!="], 0)
            else:
                yes, no = MASK["<"], MASK[">"]
                if self.op[0] == ">":
                    yes, no = no, yes
            if m & ~(yes if v else no):
                return "returns %s although the parts compared do not decide that" % str(v).lower()
            return None
        n = 0 if ea == eb else 1 if ea == "y" else 2
        if v is not self.ENDS[self.op][n]:
            return "returns %s when %s and all parts so far are equal" % (
                str(v).lower(), ("both sequences end", "the first sequence ends before the second", "the second sequence ends before the first")[n])
        return None


def sequences(p, rep):
    for cls, part in (("SylString", "Syl"), ("PronunFrac", "SylString")):
        for op in OPS:
            try:
                f = fn(p, "%s::operator%s" % (cls, op), [cls])
            except AnalysisBroken:
                if cls == "SylString" or op == "==":
                    raise
                continue
            w = SWorld(p)
            walk_hooks(w, part)
            A, B = ("L", "a", part), ("L", "b", part)
            w.seq.elem = lambda eng, st, t, nm: [(st, ("opq", (part, nm)))]
            w.facts = lambda st, X: between(st, (part, name(A)), (part, name(B)))
            st = St()
            st.store[LOG] = ("T", ())
            st.store[("t", 0, "a")] = w.rec(cls, ("gl", A))
            st.store[("t", 0, "b")] = w.rec(cls, ("gl", B))
            res = w.e.invoke(st, f, [("ref", ("t", 0, "b"), ())], ("ref", ("t", 0, "a"), ()), {"l": "entry", "k": "mcall"})
            key = cls + "/" + op
            for st, v in res:
                if st.taint or v[0] != "c":
                    rep.unresolved(key, str(st.taint or v[:2]))
                    continue
                last = (w.seq.state(st, A)[1], w.seq.state(st, B)[1], between(st, (part, name(A)), (part, name(B))), v[1])
                r = w.seq.check(st, st.store[LOG][1], Step(A, B, op, last))
                rep.count("walks")
                if r is None:
                    rep.ok()
                elif r[0].startswith("UNKNOWN"):
                    rep.unresolved(key, r[0])
                else:
                    rep.violation(key, place(f), "%s: %s" % (f["name"], r[0]), st.trace())
            if not res:
                rep.unresolved(key, "does not return")
            adopt(rep, w, key)


def c11(p):
    rep = Report("C11", "The comparison operators of syllables are interpreted abstractly on unknown components, giving a table of outcomes over all "
                 "combinations of signs; the laws of a total order, its mirror images and its agreement with equality are decided on the tables. "
                 "The operators of sequences are interpreted on two lists of unknown length that must be walked in step up to the first difference.")
    for part in (syllables, sequences):
        try:
            part(p, rep)
        except engine.NoFixpoint as x:
            rep.unresolved(part.__name__, str(x))
    if not rep.unres:
        rep.floor("sign_vectors", 4000)
        rep.floor("walks", 10)
    return rep


def check(pid):
    return {"C11": c11}[pid](prog.Program())
