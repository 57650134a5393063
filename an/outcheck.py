"""C12, C21, C22: the texts written for lists of pronunciations.

The writers are interpreted abstractly on lists of unknown length (module seq);
what they produce is a regular language that is run against monitors.
"""
import engine
import prog
from common import Report
from dom import I, sym, Z
from engine import NoFixpoint, St, unk
from prog import AnalysisBroken
from seq import Seq, name, show

ENUMS = ("EInitConsSound", "ESecInitCons", "EVowel", "EEndConsClass", "ETone")


class World:
    """The program, an engine with unknown lists, and how elements look."""

    def __init__(self, p, classes=False):
        self.p = p
        self.e = engine.Engine(p)
        self.e.unroll = 8
        self.seq = Seq(self.e, self.elem)
        self.classes = classes
        self.written = 0
        if classes:
            self.seq.classkey = self.classkey
        if "Syl" not in p.recs or "ISylOutput" not in p.recs:
            raise AnalysisBroken("class Syl or ISylOutput not found")
        base = [m for m in p.recs["ISylOutput"]["methods"] if m["n"] == "output"]
        if not base:
            raise AnalysisBroken("ISylOutput::output not found")
        self.e.hooks["IOutput::DAGSylStrings"] = self.paths
        self.e.hooks["ISylOutput::output"] = self.text
        for r in p.recs:
            o = p.overrider(r, base[0]["id"])
            if o is not None:
                self.e.hooks[r + "::output"] = self.text

    def paths(self, eng, st, node, obj, args, fn):
        """The pronunciations of a graph from a node on (see graph.paths)."""
        if eng.read(st, args[0])[0] != "opq":
            return None
        return [(st, ("gl", ("L", ("paths", eng.val(st, args[1])), "SylString")))]

    # -- elements ---------------------------------------------------------
    def elem(self, eng, st, t, nm):
        t = t.replace("const ", "").lstrip("&")
        ty = self.p.ty(t)
        if ty.get("name") == "Syl":
            out = []
            for kind in ("syl", "blank", "text"):
                q = st.fork()
                out.append((q, self.syl(q, nm, kind)))
            return out
        return [(st, self.fresh(st, t, nm))]

    def syl(self, st, nm, kind):
        """A syllable record: every field by its type; the end position carries
        the identity of the element."""
        vals = []
        dflt = {"EInitConsSound": "INVALID", "ESecInitCons": "NONE", "EVowel": "INVALID", "EEndConsClass": "NONE", "ETone": "INVALID"}
        for fn, ft in self.e.fieldtypes("Syl"):
            ty = self.p.ty(ft)
            if ty.get("cat") == "enum":
                en = ty["decl"]
                names = {n: v for n, v in self.p.enums[en]}
                if kind == "syl":
                    v = self.e.finite(st, ("fld", nm, en), self.e.uni_for(ft))
                    m = v[2].uni.full
                    if "INVALID" in names:
                        m &= ~v[2].pre[names["INVALID"]]
                    st.dom[v[1]] = m
                else:
                    v = ("c", names[dflt[en]])
            elif ty.get("cat") == "int":
                v = sym(("pos", nm, kind))
            elif self.e.lib.base(ty.get("name") or "") in self.e.lib.STRS:
                v = ("s", ())
                if kind == "text":
                    v = ("s", (("ext", ("lit", nm)),))
                    st.dbm.add(Z, ("len", ("lit", nm)), -1)
            else:
                v = unk("field")
            vals.append(v)
        return ("r", "Syl", tuple(vals))

    def fresh(self, st, t, nm):
        ty = self.p.ty(t)
        if ty.get("name") == "PronunDAG":
            return ("opq", "dag")
        b = self.e.lib.base(ty.get("name") or "")
        if b in ("std::list", "std::vector", "std::deque"):
            return ("gl", ("L", nm, ty["targs"][0]))
        if ty.get("cat") == "rec" and ty.get("name") in self.p.recs:
            if ty["name"] == "Syl":
                return self.syl(st, nm, "syl")
            fs = self.e.fieldtypes(ty["name"])
            lists = [fn for fn, ft in fs if self.e.lib.base(self.p.ty(ft).get("name") or "") in ("std::list", "std::vector", "std::deque")]
            return ("r", ty["name"], tuple(
                self.fresh(st, ft, nm if len(lists) == 1 and fn in lists else (nm, fn)) for fn, ft in fs))
        if ty.get("cat") == "char":
            v = self.e.fresh(st, t, ("chr", nm))
            return v
        return self.e.fresh(st, t, ("val", nm))

    # -- text of a syllable -------------------------------------------------
    def identity(self, v):
        if v[0] != "r" or v[1] != "Syl":
            return None
        for x in v[2]:
            if x[0] == "l" and len(x[1]) == 1 and isinstance(x[1][0][0], tuple) and x[1][0][0][0] == "pos" and x[1][0][1] == 1 and x[2] == 0:
                return x[1][0][0][1:]
        return None

    def text(self, eng, st, node, obj, args, fn):
        v = eng.val(st, args[0])
        ident = self.identity(v)
        if ident is None:
            return [(st, ("s", (("ext", ("E", None, "?", None)),)))]
        nm, kind = ident
        self.written += 1
        if kind == "text":
            st.dbm.add(Z, ("len", ("E", nm, kind, None)), -1)
        if not self.classes or kind != "syl":
            return [(st, ("s", (("ext", ("E", nm, kind, None)),)))]
        # distinguish what the hyphen rule looks at
        fs = dict((self.p.ty(ft).get("decl"), x) for (fn_, ft), x in zip(eng.fieldtypes("Syl"), v[2]) if self.p.ty(ft).get("cat") == "enum")
        iv, ev = fs["EInitConsSound"], fs["EEndConsClass"]
        inames = dict(self.p.enums["EInitConsSound"])
        enames = dict(self.p.enums["EEndConsClass"])
        out = []
        for q, i in self.cases(st, iv, {"A": inames["A"], "NGA": inames["NGA"]}):
            for q2, f in self.cases(q, ev, {"NONE": enames["NONE"]}):
                out.append((q2, ("s", (("ext", ("E", nm, kind, (i, f))),))))
        return out

    def classkey(self, st):
        """The cases of the hyphen rule are kept apart at the heads of loops."""
        out = []
        for s, m in st.dom.items():
            if isinstance(s, tuple) and s[0] == "fld" and s[2] in ("EInitConsSound", "EEndConsClass"):
                names = dict(self.p.enums[s[2]])
                u = self.e.uni_for(s[2])
                pre = self.e.finite(St(), ("tmp",), u)[2].pre
                named = 0
                cl = []
                for n in ("A", "NGA") if s[2] == "EInitConsSound" else ("NONE",):
                    b = pre[names[n]]
                    named |= b
                    if m & b:
                        cl.append(n)
                if m & ~named:
                    cl.append("other")
                out.append((repr(s), tuple(cl)))
        return tuple(sorted(out))

    def cases(self, st, v, named):
        """Split on whether finite v has one of the named values."""
        v = self.e.norm(st, v)
        if v[0] != "f":
            c = engine.const(v)
            return [(st, next((n for n, x in named.items() if x == c), "other"))]
        d = st.dom.get(v[1], v[2].uni.full)
        out = []
        rest = d
        for n, x in named.items():
            m = v[2].pre.get(x, 0) if hasattr(v[2].pre, "get") else v[2].pre[x]
            if d & m:
                q = st.fork()
                q.dom[v[1]] = d & m
                out.append((q, n))
            rest &= ~m
        if rest:
            q = st.fork()
            q.dom[v[1]] = rest
            out.append((q, "other"))
        return out

    # -- entry points -------------------------------------------------------
    def method(self, cls, what, nparam=1, rt=None):
        """Member function of cls (or a base it inherits from) by parameter types."""
        for f in self.p.fns.values():
            i = f["f"]
            if i["n"] == cls + "::output" and [x.replace("const ", "").lstrip("&") for x in i["pt"]] == what:
                return f
        return None

    def writer(self, cls, base, pick):
        if cls not in self.p.recs:
            raise AnalysisBroken("writer %s not found" % cls)
        for m in self.p.recs[base]["methods"]:
            if m["n"] == "output":
                o = self.p.overrider(cls, m["id"])
                if o is not None and o["id"] in self.p.fns:
                    f = self.p.fns[o["id"]]
                    if f["ps"] and pick in f["ps"][0]["t"]:
                        return f
        raise AnalysisBroken("%s does not write %s" % (cls, pick))

    def make(self, st, cls, extra=()):
        """An object of class cls built by its constructor."""
        e = self.e
        for f in self.p.fns.values():
            if f.get("ctor") and f["f"].get("crec") == cls and not (len(f["ps"]) == 1 and cls in f["ps"][0]["t"]):
                st.store[("t", 0, "self")] = e.default_rec(st, self.p.ty(cls)) or ("r", cls, tuple(unk("field") for _ in e.fieldtypes(cls)))
                args = []
                for i, p in enumerate(f["ps"]):
                    if "unique_ptr" in p["t"] or p["t"].endswith("*"):
                        args.append(("opaque", "writer"))
                    elif i < len(extra) and extra[i] is not None:
                        args.append(extra[i])
                    elif p.get("def") is not None:
                        args.append(e.evalconst(p["def"]))
                    else:
                        args.append(e.fresh(st, p["t"], ("par", p["n"] if "n" in p else str(i))))
                r = e.invoke(st, f, args, ("ref", ("t", 0, "self"), ()), {"l": "entry", "k": "ctor"})
                if len(r) == 1:
                    return r[0][0]
        raise AnalysisBroken("no usable constructor of %s" % cls)

    def run(self, cls, f, tname):
        st = St()
        st = self.make(st, cls, self.extra if hasattr(self, "extra") else ())
        ref = ("ref", ("t", 0, "arg"), ())
        st.store[("t", 0, "arg")] = self.fresh(st, tname, "arg")
        return self.e.invoke(st, f, [ref], ("ref", ("t", 0, "self"), ()), {"l": "entry", "k": "mcall"})


def top(v):
    """Name of the outermost list of a value."""
    if v[0] == "opq":
        return ("L", ("paths", I(0)), "SylString")
    if v[0] == "gl":
        return v[1]
    if v[0] == "r":
        for x in v[2]:
            t = top(x)
            if t:
                return t
    return None


# -- monitors -------------------------------------------------------------------
class Json:
    """Well-formed JSON made of arrays and strings; strings lie at `depth`."""

    def __init__(self, depth):
        self.depth = depth

    def start(self):
        return (0, "v")

    def step(self, s, t):
        d, m = s
        if t[0] in ("#m", "#end"):
            return s
        if t[0] == "E":
            if m != "str":
                return "syllable text outside a string"
            if t[2] == "text":
                return "foreign text is put into a JSON string as it is (quotes and control characters are not escaped)"
            if t[1] is None:
                return "UNKNOWN: text of an unknown syllable"
            return s
        if t[0] == "#cc":
            for w in t[1]:
                r = self.word(s, w)
                if isinstance(r, str):
                    return r
                if r != s:
                    return self.many(s, t[1])
            return s
        if t[0] == "c":
            return self.ch(s, t[1])
        return "UNKNOWN: %s" % (t[:1],)

    def many(self, s, ws):
        rs = {self.word(s, w) for w in ws}
        for r in rs:
            if isinstance(r, str):
                return r
        if len(rs) > 1:
            return "characters of different effect inside a JSON string are written as they are"
        return rs.pop()

    def word(self, s, w):
        for c in w:
            s = self.ch(s, c)
            if isinstance(s, str):
                return s
        return s

    def ch(self, s, c):
        d, m = s
        if m == "str":
            if c == 34:
                return (d, "e")
            if c == 92:
                return (d, "\\")
            if 0 <= c < 32:
                return "control character %d inside a JSON string" % c
            return s
        if m == "\\":
            if c == 117:
                return (d, "u0")
            if chr(c % 256) in '"\\/bfnrt':
                return (d, "str")
            return "bad escape in a JSON string"
        if m[0] == "u":
            if chr(c % 256) in "0123456789abcdefABCDEF":
                return (d, "u%d" % (int(m[1]) + 1) if m[1] != "3" else "str")
            return "bad escape in a JSON string"
        if c in (32, 10, 13, 9):
            return s
        if m in ("v", "f"):
            if c == 91:
                return (d + 1, "f") if d < 12 else "UNKNOWN: nesting"
            if c == 34:
                return (d, "str") if d == self.depth else "string at nesting depth %d, should be %d" % (d, self.depth)
            if c == 93 and m == "f":
                return (d - 1, "e")
            return "unexpected '%s' where a value belongs" % chr(c % 256)
        if m == "e":
            if c == 44 and d:
                return (d, "v")
            if c == 93 and d:
                return (d - 1, "e")
            return "unexpected '%s' after a value" % chr(c % 256)
        return "UNKNOWN: state"

    def final(self, s):
        return None if s == (0, "e") else "text ends inside the JSON value"


class Once:
    """Every element of the list, and of the lists in it, is written once, in
    order; `inner` tells whether a list holds syllables."""

    def __init__(self, topname):
        self.top = topname

    def start(self):
        return (False, False)

    def inner(self, X):
        return X[2].replace("const ", "").lstrip("&") == "Syl"

    def step(self, s, t):
        pend, owed = s
        if t[0] == "E":
            nm = t[1]
            if nm is None:
                return "UNKNOWN: text of an unknown syllable"
            r = self.rel(nm)
            if r is None:
                return "writes a syllable of another element than the current one"
            if r == 0:
                if pend:
                    return "writes a syllable twice"
                return (True, owed)
            if r == -1:
                if not owed:
                    return "writes a syllable twice"
                return (pend, False)
            return "writes a syllable out of order"
        if t[0] in ("#m", "#end") and t[1][0] == "chars":
            if self.rel(t[1][1][1]) != 0:
                return "writes a syllable of another element than the current one"
            if pend is True:
                return "writes a syllable twice"
            return (True if t[0] == "#end" else "chars", owed)
        if t[0] == "#m":
            X = t[1]
            if self.inner(X):
                if pend == "chars":
                    return "writes only part of a syllable"
                if owed:
                    return "leaves out a syllable"
                if pend:
                    return (False, False)
                if self.optional(t):
                    return (False, False)
                return (False, True)
            kids = t[3]
            if owed:
                return "leaves out a syllable"
            if not kids:
                return "leaves out an element of the list"
            if any(end != "y" for _, adv, end in kids):
                return "does not go through all syllables of an element"
            return (False, False)
        return s

    def optional(self, t):
        return False

    def rel(self, nm):
        k = nm[2]
        if isinstance(k, str):
            k = int(k[1:])
        X = nm[1]
        # all enclosing elements must be the current ones
        p = X[1]
        while isinstance(p, tuple):
            if p[0] == "@":
                if p[2] not in (0, "s0"):
                    return None
                p = p[1][1]
            else:
                p = p[0] if p else None
        return k

    def final(self, s):
        if s[1]:
            return "leaves out a syllable"
        if s[0]:
            return None
        return None


class Esc:
    """Escaped characters stand for the character they replace."""
    MAP = {34: 34, 92: 92, 47: 47, 98: 8, 102: 12, 110: 10, 114: 13, 116: 9}

    def start(self):
        return (None, ())

    def step(self, s, t):
        X, buf = s
        if t[0] == "#m":
            if t[1][0] != "chars":
                return s
            src = t[2]
            if src is None:
                return "UNKNOWN: escaped character not known"
            r = self.same(buf, src, t[1])
            return r if isinstance(r, str) else (None, ())
        if t[0] in ("c", "#cc"):
            return (None, (buf + (t,))[-8:])
        if t[0] == "E":
            return (None, ())
        return s

    def same(self, buf, src, X):
        if buf and buf[-1][0] == "#cc" and buf[-1][3]:
            if buf[-1][2] == ("chr", ("@", X, "s0")):
                return None
            return "writes another character than the one it is at"
        if any(b[0] == "#cc" for b in buf):
            buf = tuple(b if b[0] == "c" else b for b in buf)
        txt = []
        for b in buf:
            if b[0] == "c":
                txt.append(chr(b[1] % 256))
            elif len(b[1]) == 1 and len(next(iter(b[1]))) == 1:
                txt.append(chr(next(iter(b[1]))[0] % 256))
            else:
                txt.append("?")
        s = "".join(txt)
        if len(src) != 1:
            if "?" in s[-4:] or len(s) >= 6 and s[-6:-4] == "\\u":
                return None if "\\u" in s else "UNKNOWN: escape"
            return "writes the same text for %d different characters" % len(src)
        c = next(iter(src)) % 256
        if len(s) >= 6 and s[-6:-4] == "\\u":
            try:
                return None if int(s[-4:], 16) == c else "escape stands for another character"
            except ValueError:
                return None
        if len(s) >= 2 and s[-2] == "\\":
            return None if self.MAP.get(ord(s[-1])) == c else "escape stands for another character"
        if s and ord(s[-1]) == c:
            return None
        return "character %d is not written" % c

    def final(self, s):
        return None


class Line:
    """Text output of one pronunciation with a delimiter between syllables."""

    def __init__(self, delim):
        self.delim = delim

    def start(self):
        return ("begin", 0)

    def step(self, s, t):
        mode, sep = s
        if t[0] in ("#m", "#end"):
            return s
        if t[0] == "E":
            if t[1] is None:
                return "UNKNOWN: text of an unknown syllable"
            if t[2] == "blank":
                return "begin", 0
            want = 1 if mode == "in" else 0
            if sep != want:
                return "no delimiter between two syllables" if want else "delimiter that is not between two syllables"
            return ("in", 0)
        if t[0] == "#cc" and t[2] == self.delim or t[0] == "c" and t[1] == self.delim:
            if sep:
                return "two delimiters in a row"
            return (mode, 1)
        if t == ("c", 32):
            if sep:
                return "delimiter before a blank"
            return ("begin", 0)
        return "unexpected text between syllables"

    def final(self, s):
        return "delimiter at the end" if s[1] else None


class BlankOnce(Once):
    """As Once, but a blank may be written as a space of its own."""

    def step(self, s, t):
        if t == ("c", 32) and not s[0]:
            return (True, s[1])
        return Once.step(self, s, t)


class Hyphen:
    """Romanization: where hyphens go."""

    def start(self):
        return ("begin", 0)

    def step(self, s, t):
        mode, sep = s
        if t[0] in ("#m", "#end"):
            return s
        if t[0] == "E":
            if t[1] is None:
                return "UNKNOWN: text of an unknown syllable"
            if t[2] == "blank":
                return "hyphen before a blank" if sep else ("begin", 0)
            if t[2] == "text":
                return "hyphen before foreign text" if sep else ("text", 0)
            i, f = t[3]
            if mode == "begin":
                want = 0
            elif mode == "text":
                want = sep
            else:
                want = 1 if i == "A" or i == "NGA" and mode == "open" else 0
            if want != sep:
                if mode == "begin":
                    return "hyphen at the beginning of a word"
                if want:
                    return "no hyphen before a syllable that starts with %s" % (
                        "a vowel" if i == "A" else "ng after an open syllable")
                return "hyphen before a syllable that needs none"
            return ("open" if f == "NONE" else "closed", 0)
        if t == ("c", 45):
            return (mode, 1) if not sep else "two hyphens in a row"
        if t == ("c", 32):
            return ("begin", 0) if not sep else "hyphen before a blank"
        return "unexpected text between syllables"

    def final(self, s):
        return "hyphen at the end" if s[1] else None


class Lines:
    """One line per pronunciation."""

    def start(self):
        return (0, False)

    def step(self, s, t):
        n, owed = s
        if t == ("c", 10):
            if owed:
                return (n, False)
            return (1, False) if not n else "more than one line for a pronunciation"
        if t[0] == "#m":
            if Once.inner(self, t[1]) or t[1][0] == "chars":
                return s
            if owed:
                return "no line end after a pronunciation"
            return (0, False) if n else (0, True)
        if t[0] == "#end":
            return s
        return s if not n else "text after the line end of a pronunciation"

    def final(self, s):
        return None if s == (0, False) else "last line is not ended" if s[1] else "more than one line for a pronunciation"


def judge(rep, w, key, f, results, topname, monitors):
    """Run the monitors over every result of f."""
    for st, v in results:
        where = "%s (%s)" % (f["f"].get("l") or f["b"].get("l"), f["name"])
        if st.taint or v[0] != "s":
            rep.unresolved(key + "/" + f["name"], str(st.taint or v[:2]))
            continue
        adv, end = w.seq.state(st, topname)
        if end != "y":
            rep.violation(key + "/all", where, "returns before all elements of the list are written", st.trace())
        else:
            rep.ok()
        for mname, mon in monitors:
            r = w.seq.check(st, v[1], mon)
            rep.count("languages")
            if r is None:
                rep.ok()
            elif r[0].startswith("UNKNOWN"):
                rep.unresolved(key + "/" + mname, r[0])
            else:
                rep.violation(key + "/" + mname, where, "%s, e.g. %s" % (r[0], show(r[1])), st.trace())


def adopt(rep, w, key, kinds=("iterator-deref", "iterator-advance", "null-deref", "empty-access", "string-bounds")):
    for (kind, loc, tag), (n, failed, unres) in w.e.oblig.items():
        if kind in kinds and not failed and not unres:
            rep.ok()
    for k, x in w.e.findings.items():
        if x["kind"] in kinds:
            rep.violation(key + "/" + x["kind"] + "/" + x.get("fn", ""), x["loc"], x.get("msg", ""), x.get("trace", ()))
    for k, m in w.e.unresolved.items():
        if k[0] in kinds:
            rep.unresolved(key + "/" + str(k), m)


def check(pid):
    p = prog.Program()
    return {"C12": c12, "C21": c21, "C22": c22}[pid](p)


def c12(p):
    rep = Report("C12", "The JSON writers are interpreted abstractly on lists of unknown length at every level, with three kinds of "
                 "elements (syllable, blank, foreign text). The texts they can produce form a regular language; it is run against "
                 "monitors for JSON syntax and nesting, for each element written once and in order, and for escapes that stand for "
                 "the character they replace. Iterators must not be dereferenced or moved at the end of a list.")
    for cls, t, depth in (("JsonOutput", "std::list<SylString>", 2), ("JsonOutput", "PronunDAG", 2), ("GroupedJsonOutput", "PronunLatt", 4)):
        w = World(p)
        f = w.method(cls, [t])
        if f is None:
            raise AnalysisBroken("%s::output(%s) not found" % (cls, t))
        rep.count("writers")
        try:
            res = w.run(cls, f, t)
        except NoFixpoint as x:
            rep.unresolved(cls, str(x))
            continue
        tn = top(w.fresh(St(), t, "arg"))
        judge(rep, w, cls, f, res, tn, [("syntax", Json(depth)), ("once", Once(tn)), ("escape", Esc())])
        adopt(rep, w, cls)
        rep.count("syllable_texts", w.written)
    rep.floor("writers", 3)
    if not rep.unres:
        rep.floor("syllable_texts", 6)
    return rep


def c21(p):
    rep = Report("C21", "The plain writers are interpreted abstractly on lists of unknown length; the regular language of texts they can produce is "
                 "run against monitors for each syllable written once and in order, delimiters only between syllables of a word, and one "
                 "line per pronunciation.")
    for t in ("SylString", "std::list<SylString>", "PronunDAG"):
        w = World(p)
        f = w.method("DelimOutput", [t])
        if f is None:
            raise AnalysisBroken("DelimOutput::output(%s) not found" % t)
        rep.count("writers")
        try:
            res = w.run("DelimOutput", f, t)
        except NoFixpoint as x:
            rep.unresolved("DelimOutput", str(x))
            continue
        tn = top(w.fresh(St(), t, "arg"))
        mons = [("once", BlankOnce(tn))]
        mons.append(("delimiter", Line(("par", "delim"))) if t == "SylString" else ("lines", Lines()))
        judge(rep, w, "DelimOutput", f, res, tn, mons)
        adopt(rep, w, "DelimOutput")
        rep.count("syllable_texts", w.written)
    import graph
    try:
        graph.paths(p, rep)
    except NoFixpoint as x:
        rep.unresolved("paths", str(x))
    rep.floor("writers", 3)
    if not rep.unres:
        rep.floor("syllable_texts", 6)
    return rep


def c22(p):
    rep = Report("C22", "The romanizing writer is interpreted abstractly on lists of unknown length, the cases of the hyphen rule kept apart; the "
                 "regular language of texts it can produce is run against monitors for the hyphen rule, for each syllable written once and "
                 "in order, and for one line per pronunciation.")
    for t in ("SylString", "std::list<SylString>", "PronunDAG"):
        w = World(p, classes=True)
        f = w.method("RomanOutput", [t])
        if f is None:
            raise AnalysisBroken("RomanOutput::output(%s) not found" % t)
        rep.count("writers")
        try:
            res = w.run("RomanOutput", f, t)
        except NoFixpoint as x:
            rep.unresolved("RomanOutput", str(x))
            continue
        tn = top(w.fresh(St(), t, "arg"))
        mons = [("once", BlankOnce(tn))]
        mons.append(("hyphen", Hyphen()) if t == "SylString" else ("lines", Lines()))
        judge(rep, w, "RomanOutput", f, res, tn, mons)
        adopt(rep, w, "RomanOutput")
        rep.count("syllable_texts", w.written)
    rep.floor("writers", 3)
    if not rep.unres:
        rep.floor("syllable_texts", 6)
    return rep
