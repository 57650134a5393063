"""C18: the command line - options, words, what is written for each word.

main is interpreted on an argument list of unknown length.  Each argument is of
one of the documented kinds or anything else; a ghost follows which kinds occur
at all, which have been seen in the present pass over the list, and what was
done for the argument at hand.
"""
import engine
import prog
from common import Report
from dom import I, sym, Z, aff_add
from engine import St, unk, NULL, VOID, TRUE, FALSE, NoFixpoint
from latt import place
from prog import AnalysisBroken
from seq import Seq, name

ARGC = ("size", "argv")
CUR, LASTD, OLDD, THED, OTHER = ("#cur",), ("#lastd",), ("#olderd",), ("#thed",), ("#other",)
OUTS = ("L", ("outputs",), "std::unique_ptr<IOutput>")
NOTATIONS = {"r": "Roman", "t": "Thai", "p": "Phonetic", "w": "Raw", "s": "Soundex"}
DELIM = {"t": "-", "p": " ", "w": ",", "s": "-"}
LONG = {"--version": "stop", "--help": "stop"}
LETTERS = "jgnd" + "".join(NOTATIONS) + "Vh-"
KINDS = ("arguments", "options", "words", "dictionary", "segmentation", "outputs", "written", "status", "iterator-deref", "iterator-advance", "null-deref")


def G(n):
    return ("gst", "cli", n)


def flat(x):
    """Everything a value is made of."""
    if not isinstance(x, tuple):
        return [x]
    return [x] + [z for y in x for z in flat(y)]


def feature(c):
    """What a kind of argument counts as."""
    if c == "word":
        return "word"
    if c in NOTATIONS:
        return "notation"
    if c in ("j", "g", "n", "d"):
        return c
    return "stop"


class CWorld:
    def __init__(self, p, tracked):
        self.p = p
        self.tracked = frozenset(tracked) | {"stop"}
        self.e = e = engine.Engine(p)
        e.unroll = 8
        self.seq = Seq(e, self.elem)
        self.seq.factfn = self.left
        e.joinhead = lambda c: True
        self.events = {}
        index0, arith0, cmp0, cons0, branch0, head0, cont0 = e.index, e.arith, e.cmp, e.construct_val, e.branch, e.headjoin, self.seq.container

        def index(st, b, i, x):
            if b == ("gh", "argv"):
                return self.visit(st, i, x)
            if b[:2] == ("gh", "arg"):
                a = arith0(st, "+", b[3], i, "int", x)
                return [(s2, self.char(s2, b[2], k)) for s2, k in a]
            return index0(st, b, i, x)

        def arith(st, op, a, b, t, x):
            if a[:2] == ("gh", "arg") and op in "+-" and b[0] == "l":
                return [(st, ("gh", "arg", a[2], aff_add(a[3], b, 1 if op == "+" else -1)))]
            return arith0(st, op, a, b, t, x)

        def cmp(st, op, a, b, node=None):
            for u, v in ((a, b), (b, a)):
                if u[:2] in (("gh", "arg"), ("gh", "obj")) and v == NULL and op in ("==", "!="):
                    return [(st, ("c", op == "!="))]
            out = []
            for s2, r in cmp0(st, op, a, b, node) if node is not None else cmp0(st, op, a, b):
                s2 = self.settle(s2, node)
                if s2 is not None:
                    out.append((s2, r))
            return out

        def cons(st, x, f, ty, args):
            n = ty.get("name") or ""
            if n == "Parser" and not (x.get("copy") or x.get("move")):
                return self.parser(st, x, args)
            if n == "Parser":
                return [(st, ("opq", "parser"))]
            if "basic_string" in n and args and e.val(st, args[0])[:2] == ("gh", "arg"):
                v = e.val(st, args[0])
                return [(st, ("s", (("ext", ("arg", v[2], v[3])),)))]
            return cons0(st, x, f, ty, args)

        def branch(st, v, x):
            if v[:2] in (("gh", "arg"), ("gh", "obj"), ("gh", "argv")):
                return [st], []
            return branch0(st, v, x)

        def head(heads, st, s):
            if s.get("k") in ("for", "while", "do"):
                at = st.store.get(G("at"))
                if at is not None and at[1] is not None and at[1][1] == len(e.callstack) and self.within(s, at[1][0]):
                    self.close(st, s)
            return head0(heads, st, s)

        def container(st, x, m, o, v, args, f):
            if m in ("push_back", "emplace_back") and args and e.val(st, args[0])[:2] == ("gh", "obj"):
                return self.push(st, x, o, v, e.val(st, args[0]))
            return cont0(st, x, m, o, v, args, f)
        e.index, e.arith, e.cmp, e.construct_val, e.branch, e.headjoin = index, arith, cmp, cons, branch, head
        self.seq.container = container
        disp0 = e.dispatch_method

        def disp(st, x, f, o, args):
            if (f.get("cls") or "").startswith("std::") and f["s"] in ("push_back", "emplace_back", "push_front"):
                v = e.read(st, o)
                if args and e.val(st, args[0])[:2] == ("gh", "obj") and v[0] in ("A", "gl"):
                    if f["s"] == "push_front":
                        e.oblige("outputs", x, st, False, "outputs are kept in reverse order")
                        return []
                    return self.push(st, x, o, v, e.val(st, args[0]))
                if any(CUR in flat(e.val(st, a)) for a in args):
                    st.taint = st.taint or "arguments are collected"
            return disp0(st, x, f, o, args)
        e.dispatch_method = disp
        un0 = e.EX["un"]

        def un(st, x):
            if x.get("op") == "*" and p.cat(x["e"].get("t", "?")) in ("ptr", "arr"):
                out = []
                for s2, v in e.ev(st.fork(), x["e"]):
                    if v == ("gh", "argv"):
                        out += self.visit(s2, I(0), x)
                    elif v[:2] == ("gh", "arg"):
                        out.append((s2, self.char(s2, v[2], v[3])))
                    else:
                        return un0(st, x)
                return out
            return un0(st, x)
        e.EX["un"] = un
        e.on_new = lambda eng, st, x, cls, args: [(st, ("gh", "obj", cls, tuple(eng.val(st, a) for a in args)))] if cls in p.recs and cls != "Parser" else None
        e.EX["new"] = self.new
        e.on_stream = self.stream
        e.getline = self.getline
        h = e.hooks
        for n in ("exit", "std::exit", "_exit", "std::_Exit", "quick_exit", "std::quick_exit"):
            h[n] = self.exits
        for n in ("abort", "std::abort", "std::terminate"):
            h[n] = lambda eng, st, n, o, a, f: self.exits(eng, st, n, o, [I(134)], f)
        h["strcmp"] = h["std::strcmp"] = self.strcmp
        h["Parser::loadExceptDict"] = self.load
        h["Parser::parseWord"] = self.parse
        h["IOutput::output"] = self.output
        h["std::basic_ios::operator bool"] = lambda eng, st, n, o, a, f: None

    def within(self, s, nid):
        ids = getattr(self, "_ids", None)
        if ids is None:
            ids = self._ids = {}
        if id(s) not in ids:
            acc = set()

            def walk(x):
                if isinstance(x, dict):
                    acc.add(id(x))
                    for y in x.values():
                        walk(y)
                elif isinstance(x, list):
                    for y in x:
                        walk(y)
            walk(s)
            ids[id(s)] = acc
        return nid in ids[id(s)]

    # -- ghosts -----------------------------------------------------------------
    def get(self, st, n):
        v = st.store.get(G(n))
        return v[1] if v is not None else None

    def put(self, st, n, v):
        st.store[G(n)] = ("c", v)

    def rename(self, st, a, b):
        def sub(x):
            if x == a:
                return b
            if isinstance(x, tuple):
                return tuple(sub(y) for y in x)
            return x
        for r, v in list(st.store.items()):
            w = sub(v)
            if w != v:
                st.store[r] = w

    def must(self, kind, node, st, ok, msg):
        self.events[kind] = self.events.get(kind, 0) + 1
        self.e.oblige(kind, node, st, ok, msg)
        return ok

    def start(self, has):
        st = St()
        for n, v in (("has", has), ("seen", frozenset()), ("cls", None), ("at", None), ("omode", None), ("wmode", None), ("matched", 0), ("printed", 0),
                     ("outd", 0), ("proc", 0), ("defaults", ()), ("word", None), ("pm", "idle"), ("front", False), ("failed", False), ("err", False),
                     ("parsed", False), ("loaded", False), ("stdin", None), ("complete", False), ("parser", False), ("gap", False)):
            self.put(st, n, v)
        st.store[G("vis")] = NULL
        st.store[G("nopt")] = I(0)
        st.dbm.add(Z, ARGC, -1)
        if has:
            st.dbm.add(Z, ARGC, -2)
        return st

    # -- arguments ----------------------------------------------------------------
    def eq(self, st, a, b):
        d = aff_add(a, b, -1)
        return self.e.lo(st, d) == 0 == self.e.hi(st, d)

    def visit(self, st, i, node):
        e = self.e
        if i[0] != "l":
            return [(st, e.giveup(st, "argument number", node))]
        if i == I(0):
            return [(st, ("gh", "arg", ("#prog",), I(0)))]
        v = st.store[G("vis")]
        if v != NULL and self.eq(st, i, aff_add(v, I(1), -1)) and self.get(st, "cls") is not None:
            return [(st, ("gh", "arg", CUR, I(0)))]
        first = i == I(1)
        if v != NULL and self.eq(st, i, v):
            pass
        elif v == NULL and e.prove_le(st, aff_add(I(1), i, -1)):
            self.put(st, "gap", not first)
            self.put(st, "seen", frozenset())
            self.put(st, "omode", None)
            self.put(st, "wmode", None)
            self.put(st, "complete", False)
            st.store[G("nopt")] = I(0)
        else:
            e.oblige("arguments", node, st, None, "arguments are not visited one after the other")
            return [(st, e.giveup(st, "order of arguments", node))]
        ok = e.prove_le(st, aff_add(i, sym(ARGC), -1), -1)
        self.must("arguments", node, st, ok, "an argument beyond the last one is looked at")
        if not ok:
            return []
        if self.get(st, "cls") is not None and not self.close(st, node):
            return []
        st.store[G("vis")] = aff_add(i, I(1))
        has, seen = self.get(st, "has"), self.get(st, "seen")
        out = []
        for c in ["word", "j", "g", "n", "d", "dmissing", "V", "h", "?"] + sorted(NOTATIONS) + ["--version", "--help", "--?"]:
            f = feature(c)
            if f in self.tracked and f not in has:
                continue
            q = st.fork()
            self.put(q, "cls", c)
            self.put(q, "seen", seen | {f} & self.tracked)
            self.put(q, "at", (id(node), len(e.callstack)))
            self.put(q, "outd", 0)
            self.put(q, "proc", 0)
            if c != "word":
                q.store[G("nopt")] = aff_add(q.store[G("nopt")], I(1))
            q.note(e.where(node), "argument: %s" % ("word" if c == "word" else c if c.startswith("--") else "-" + c))
            out.append((q, ("gh", "arg", CUR, I(0))))
        return out

    def char(self, st, nm, k):
        e = self.e
        u = e.uni_for("char")
        c = self.get(st, "cls")
        if nm != CUR or k[0] != "l" or k[1] or c is None:
            return e.giveup(st, "character of an argument", {"k": "idx", "l": "?"})
        k = k[2]
        full = lambda *no: e.finite(st, ("argch", k, c), u, u.full & ~sum(u.ident.pre[ord(x) if isinstance(x, str) else x] for x in no))
        ch = lambda x: ("c", x) if False else I(x)
        if c == "word":
            return full("-") if k == 0 else full()
        if k == 0:
            return ch(ord("-"))
        if c.startswith("--"):
            if k == 1:
                return ch(ord("-"))
            if c == "--?":
                return full()
            return ch(ord(c[k])) if k < len(c) else ch(0) if k == len(c) else full()
        if k == 1:
            return full(*LETTERS) if c == "?" else ch(ord(c[0]))
        if k == 2 and c == "dmissing":
            return ch(0)
        if k == 2 and c == "d":
            return full(0)
        return full()

    def strcmp(self, eng, st, node, obj, args, f):
        a, b = eng.val(st, args[0]), eng.val(st, args[1])
        if b[:2] == ("gh", "arg"):
            a, b = b, a
        if a[:2] != ("gh", "arg"):
            return None
        t = engine.strconst(b) if b[0] == "s" else None
        c = self.get(st, "cls")
        if t is None or a[2] != CUR or a[3][1] or c is None:
            return None
        t = "".join(map(chr, t)) if not isinstance(t, str) else t
        k = a[3][2]
        if c in LONG:
            return [(st, I(0 if c[k:] == t else 1))]
        pre = "-"[k:] if c == "?" else "--"[k:] if c == "--?" else ("-" + c[0])[k:]
        if c == "word":
            if k == 0 and t.startswith("-"):
                return [(st, I(1))]
        elif c == "--?" and "--"[:k] + t in LONG:
            return [(st, I(1))]
        elif not t.startswith(pre) and k < 2:
            return [(st, I(1))]
        q = st.fork()
        return [(st, I(1)), (q, I(0))]

    def close(self, st, node):
        """The argument at hand is left."""
        c = self.get(st, "cls")
        if c is None:
            return True
        ok = True
        for what, done, mode in (("word", "proc", "wmode"), ("notation", "outd", "omode")):
            if feature(c) == what:
                d = bool(self.get(st, done))
                m = self.get(st, mode)
                if m is None:
                    self.put(st, mode, d)
                else:
                    ok &= self.must("words" if what == "word" else "outputs", node, st, m == d,
                                    "some of the %s are left out" % ("words" if what == "word" else "notations"))
        if feature(c) == "word" and self.get(st, "proc"):
            ok &= self.finished(st, node)
        if c == "d":
            self.rename(st, LASTD, OLDD)
            self.rename(st, CUR, LASTD)
        else:
            self.rename(st, CUR, OTHER)
        self.put(st, "cls", None)
        self.put(st, "at", None)
        self.put(st, "outd", 0)
        self.put(st, "proc", 0)
        for s in list(st.dom):
            if isinstance(s, tuple) and s[0] == "argch":
                del st.dom[s]
        return ok

    def settle(self, st, node):
        """The last argument has been visited: what has not been seen is not there."""
        v = st.store.get(G("vis"))
        if v is None:
            return st
        has = self.get(st, "has")
        if has and self.e.hi(st, sym(ARGC)) == 1:
            return None
        if v == NULL or self.get(st, "complete") or not self.eq(st, v, sym(ARGC)):
            return st
        if self.get(st, "cls") is not None:
            # the list is known to end here, but this argument is still being dealt with
            return st
        seen = self.get(st, "seen")
        gap = self.get(st, "gap")
        if gap:
            self.must("words", node, st, not self.get(st, "wmode"), "words that are not after the first few arguments are left out")
            self.must("outputs", node, st, not self.get(st, "omode"), "notations that are not after the first few arguments are left out")
        elif seen != has:
            return None
        n = st.store[G("nopt")]
        if "word" in self.tracked and not gap:
            if "word" in has:
                st = self.e.assume_le(st, aff_add(n, sym(ARGC), -1), -2)
            else:
                st = self.e.assume_le(st, aff_add(sym(ARGC), n, -1), 1)
            if st is None:
                return None
        st = self.e.assume_le(st, aff_add(n, sym(ARGC), -1), -1)
        if st is None:
            return None
        if self.get(st, "omode"):
            self.put(st, "matched", min(2, self.get(st, "matched") + 1))
        if self.get(st, "wmode"):
            self.put(st, "printed", min(2, self.get(st, "printed") + 1))
        self.put(st, "omode", None)
        self.put(st, "wmode", None)
        self.put(st, "complete", True)
        self.rename(st, LASTD, THED)
        st.store[G("vis")] = NULL
        st.store[G("nopt")] = I(0)
        return st

    # -- what options do -------------------------------------------------------------
    def new(self, st, x):
        ty = x.get("ty") or x.get("t") or ""
        i = x.get("init") or x.get("e") or {}
        cls = (i.get("f") or {}).get("crec")
        out = []
        if cls in self.p.recs and not x.get("arr"):
            for s2, args in self.e.args(st, i.get("a") or [], i["f"]["pt"]):
                out.append((s2, ("gh", "obj", cls, tuple(self.e.val(s2, a) for a in args))))
            return out
        return [(st, self.e.giveup(st, "new", x))]

    def describe(self, v):
        """(structure, notation, delimiter) of an output object."""
        sub = [a for a in v[3] if a[:2] == ("gh", "obj")]
        chars = [a for a in v[3] if a[0] in ("l", "c") and a != NULL]
        n = None
        for k, w in NOTATIONS.items():
            if sub and sub[0][2] == w + "SylOutput" or v[2] == w + "Output":
                n = k
        s = {"JsonOutput": "j", "GroupedJsonOutput": "g"}.get(v[2], "plain")
        d = None
        if v[2] == "DelimOutput":
            if len(chars) != 1 or chars[0][0] == "l" and chars[0][1]:
                return None
            d = chr(chars[0][2] if chars[0][0] == "l" else chars[0][1])
        elif s == "plain" and v[2] != "RomanOutput":
            return None
        return None if n is None else (s, n, d)

    def push(self, st, node, o, v, obj):
        d = self.describe(obj)
        if d is None:
            self.e.oblige("outputs", node, st, None, "output of a kind that is not known")
            st.taint = st.taint or "output object"
            d = ("?", "?", None)
        s, n, delim = d
        has = self.get(st, "has")
        if "j" in self.tracked and n != "?":
            want = "g" if "g" in has else "j" if "j" in has else "plain"
            if not self.must("outputs", node, st, s == want, "output structure is %s although %s asked for" % (
                    {"g": "grouped JSON", "j": "JSON", "plain": "plain"}[s], {"g": "grouped JSON is", "j": "JSON is", "plain": "no JSON is"}[want])):
                return []
        if s == "plain":
            self.must("outputs", node, st, (delim == DELIM.get(n)), "syllables in the %s notation are joined by %r" % (NOTATIONS.get(n), delim))
        c = self.get(st, "cls")
        if c is not None:
            ok = c == n or n == "?"
            ok = ok and self.get(st, "outd") == 0
            if not self.must("outputs", node, st, ok, "a %s output is added for %s%s" % (NOTATIONS.get(n), "a word" if c == "word" else "-" + c, " again" if c == n else "")):
                return []
            self.put(st, "outd", 1)
        else:
            self.put(st, "defaults", self.get(st, "defaults") + (n,))
            if not self.must("outputs", node, st, len(self.get(st, "defaults")) <= 3, "more default outputs than documented"):
                return []
        self.e.write(st, o, ("gl", OUTS))
        self.seq.setstate(st, OUTS, 0, "n")
        return [(st, VOID)]

    def parser(self, st, node, args):
        v = self.e.val(st, args[0]) if args else TRUE
        if self.p.recs.get("Parser") and args and args[0][0] == "ref" and v == ("opq", "parser"):
            return [(st, v)]
        if "n" in self.tracked:
            if v not in (TRUE, FALSE, I(0), I(1)):
                self.e.oblige("segmentation", node, st, None, "argument not followed")
                st.taint = st.taint or "parser argument"
            else:
                on = v in (TRUE, I(1))
                self.must("segmentation", node, st, on == ("n" not in self.get(st, "has")),
                          "word segmentation is %s although -n is %s" % ("on" if on else "off", "given" if on else "not given"))
        self.put(st, "parser", True)
        return [(st, ("opq", "parser"))]

    def load(self, eng, st, node, obj, args, f):
        v = eng.val(st, args[0])
        if "d" in self.tracked:
            given = "d" in self.get(st, "has")
            ok = None
            if v[:2] == ("gh", "arg"):
                ok = given and v[2] == THED and v[3] == I(2)
            elif v[0] == "s" and engine.strconst(v) is not None:
                ok = not given
            self.must("dictionary", node, st, ok, "the dictionary opened is not the %s one" % ("given" if given else "default"))
        self.put(st, "loaded", True)
        q = st.fork()
        q.note(eng.where(node), "dictionary cannot be opened")
        return [(st, TRUE), (q, FALSE)]

    # -- words -------------------------------------------------------------------------
    def begin(self, st, w, node):
        if self.get(st, "word") == w:
            return True
        if self.get(st, "word") is not None and not self.finished(st, node):
            return False
        for n, v in (("word", w), ("pm", "start"), ("front", False), ("failed", False), ("err", False), ("parsed", False)):
            self.put(st, n, v)
        for r in [r for r in st.store if r[0] == "ge" and "outputs" in repr(r)]:
            del st.store[r]
        if ("gst", "seq", OUTS) in st.store:
            self.seq.setstate(st, OUTS, 0, "n")
        return True

    def ident(self, v):
        """The word a text stands for."""
        if v[:2] == ("gh", "arg"):
            return ("arg", v[2]) if v[3] == I(0) else None
        if v[0] == "s" and len(v[1]) == 1 and v[1][0][0] == "ext":
            t = v[1][0][1]
            if t[0] == "arg":
                return ("arg", t[1]) if t[2] == I(0) else None
            if t == ("line",):
                return t
        return None

    def parse(self, eng, st, node, obj, args, f):
        w = self.ident(eng.val(st, args[0]))
        if w is None:
            eng.oblige("words", node, st, None, "word not followed")
            return [(st, eng.giveup(st, "word", node))]
        if not self.begin(st, w, node):
            return []
        has = self.get(st, "has")
        c = self.get(st, "cls")
        if w[0] == "arg":
            ok = w[1] == CUR and c == "word"
            if not self.must("words", node, st, ok, "something that is not a word is analysed"):
                return []
            if not self.must("words", node, st, self.get(st, "proc") == 0, "a word is analysed twice"):
                return []
            if not self.must("words", node, st, self.get(st, "printed") == 0, "words are analysed twice"):
                return []
            self.put(st, "proc", 1)
        else:
            self.must("words", node, st, not self.get(st, "parsed"), "a line is analysed twice")
            self.put(st, "stdin", "done")
        self.put(st, "parsed", True)
        self.must("status", node, st, "stop" not in self.get(st, "seen"), "words are analysed although an option ends the program")
        self.must("dictionary", node, st, self.get(st, "loaded"), "words are analysed before the dictionary is opened")
        self.outputs(st, node)
        q = st.fork()
        self.put(q, "failed", True)
        eng.throw(q, "std::range_error", node)
        return [(st, ("gh", "dag", w))]

    def outputs(self, st, node):
        has, d, m = self.get(st, "has"), self.get(st, "defaults"), self.get(st, "matched")
        if self.get(st, "omode"):
            m += 1
        if "notation" not in self.tracked:
            return
        if "notation" in has:
            self.must("outputs", node, st, m == 1 and d == (), "the notations asked for are not exactly those written")
        else:
            self.must("outputs", node, st, d == ("t", "r", "p"), "without notation options, the notations are not Thai, Roman, Phonetic")

    def elem(self, eng, st, t, nm):
        r = ("ge", ("obj", nm))
        st.store[r] = ("gh", "out", nm)
        return [(st, ("ref", r, ()))]

    def output(self, eng, st, node, obj, args, f):
        o = eng.read(st, obj)
        d = eng.val(st, args[0])
        if o[:2] != ("gh", "out") or d[:2] != ("gh", "dag"):
            eng.oblige("written", node, st, None, "output not followed")
            return [(st, eng.giveup(st, "output", node))]
        return [(st, ("s", (("ext", ("res", o[2], d[2])),)))]

    def left(self, st, X):
        if X == OUTS and self.get(st, "pm") is not None:
            if not self.get(st, "failed"):
                self.must("written", {"l": "", "k": "rfor"} if self.node is None else self.node, st, self.get(st, "front"), "a notation is left out")
            self.put(st, "front", False)
        return None

    node = None

    def stream(self, eng, st, node, args):
        s, v = repr(args[0]), eng.val(st, args[1])
        self.node = node
        if "cerr" in s or "clog" in s:
            self.put(st, "err", True)
            return [(st, args[0])]
        if "cout" not in s:
            return None
        if "stop" in self.get(st, "seen"):
            return [(st, args[0])]
        if v[0] == "fn" and "endl" in repr(v):
            toks = ["\n"]
        elif v[0] == "fn":
            toks = []
        elif v[:2] == ("gh", "arg"):
            toks = [self.ident(v)]
        elif v[0] == "s":
            toks = []
            for pc in v[1]:
                if pc[0] == "k":
                    toks += [chr(x) if isinstance(x, int) else x for x in pc[1]]
                elif pc[0] == "ext":
                    t = pc[1]
                    toks.append(("arg", t[1]) if t[0] == "arg" and t[2] == I(0) else t)
                else:
                    toks.append(None)
        elif engine.const(v) is not None and self.p.cat((node.get("a") or [{}])[-1].get("t", "?")) == "char":
            toks = [chr(int(engine.const(v)))]
        else:
            toks = [None]
        for t in toks:
            if not self.token(st, node, t):
                return []
        return [(st, args[0])]

    def token(self, st, node, t):
        if t is None or isinstance(t, tuple) and t[0] not in ("arg", "line", "res"):
            self.e.oblige("written", node, st, None, "text not followed")
            st.taint = st.taint or "text written"
            return True
        if isinstance(t, tuple) and t[0] in ("arg", "line"):
            if t[0] == "arg":
                if not self.must("written", node, st, t[1] == CUR and self.get(st, "cls") == "word", "an argument that is not a word is written"):
                    return False
            if not self.begin(st, t, node):
                return False
        pm = self.get(st, "pm")
        nxt = None
        if pm == "start" and isinstance(t, tuple) and t[0] in ("arg", "line"):
            nxt = "named"
        elif pm == "named" and t == ":":
            nxt = "colon"
        elif pm == "colon" and t == "\n":
            nxt = "body"
        elif pm == "body" and isinstance(t, tuple) and t[0] == "res":
            ok = t[2] == self.get(st, "word")
            ok = ok and t[1] == name(OUTS) and not self.get(st, "front")
            if not self.must("written", node, st, ok, "an output is written twice, out of turn or for another word"):
                return False
            self.put(st, "front", True)
            nxt = "result"
        elif pm == "result" and t == "\n":
            nxt = "body"
        if not self.must("written", node, st, nxt is not None, "unexpected text is written: %r" % (t if isinstance(t, str) else t[0],)):
            return False
        self.put(st, "pm", nxt)
        return True

    def finished(self, st, node):
        """Everything has been written for the word before."""
        if self.get(st, "failed"):
            ok = self.get(st, "err") and self.get(st, "pm") in ("start", "body")
            ok = self.must("written", node, st, ok, "nothing is reported for invalid text")
        else:
            end = self.seq.state(st, OUTS)[1] == "y"
            ok = self.must("written", node, st, self.get(st, "parsed") and self.get(st, "pm") == "body" and end, "not everything is written for a word")
        for n, v in (("word", None), ("pm", "idle"), ("front", False), ("failed", False), ("err", False), ("parsed", False)):
            self.put(st, n, v)
        return ok

    def getline(self, eng, st, node, args):
        if "cin" not in repr(args[0]):
            return None
        has = self.get(st, "has")
        if "word" in self.tracked and not self.must("words", node, st, "word" not in has, "standard input is read although words are given"):
            return []
        self.must("status", node, st, "stop" not in self.get(st, "seen"), "standard input is read although an option ends the program")
        if self.get(st, "word") is not None and not self.finished(st, node):
            return []
        if not self.must("words", node, st, self.get(st, "stdin") in (None, "done"), "a line of the input is left out"):
            return []
        q = st.fork()
        self.put(q, "stdin", "eof")
        q.store[("G", "eof")] = TRUE
        q.note(eng.where(node), "end of input")
        self.put(st, "stdin", "line")
        st.store[("G", "eof")] = FALSE
        eng.write(st, args[1], ("s", (("ext", ("line",)),)))
        return [(st, args[0]), (q, args[0])]

    def exits(self, eng, st, node, obj, args, f):
        self.final(st, eng.val(st, args[0]), node)
        return []

    def final(self, st, v, f):
        """At the end of the program."""
        e = self.e
        node = {"l": f["l"], "k": "return"}
        c = engine.const(v)
        if c is None:
            e.oblige("status", node, st, None, "exit status not followed")
            return
        has = self.get(st, "has")
        stop = "stop" in self.get(st, "seen")
        if stop:
            self.must("status", node, st, int(c) != 0 or self.get(st, "cls") in ("V", "h", "--version", "--help"), "success is reported for an unknown option")
            return
        if not self.must("status", node, st, int(c) == 0, "failure is reported although nothing is wrong"):
            return
        if "word" in self.tracked:
            n = self.get(st, "printed") + (1 if self.get(st, "wmode") else 0)
            if "word" in has:
                self.must("words", node, st, n == 1, "the words given are not all analysed once")
            else:
                self.must("words", node, st, self.get(st, "stdin") == "eof", "the input is not read to its end")
        if self.get(st, "word") is not None:
            self.finished(st, node)


def run(p, rep, tracked):
    import itertools
    mains = [f for f in p.fns.values() if f["name"] == "main" and f["tu"].endswith((".cxx", ".cpp", ".cc"))]
    if len(mains) != 1:
        raise AnalysisBroken("main of the program not found")
    f = mains[0]
    tr = sorted(tracked) + ["stop"]
    w = CWorld(p, tracked)
    ends = 0
    for n in range(len(tr) + 1):
        for has in itertools.combinations(tr, n):
            st = w.start(frozenset(has))
            w.e.thrown.append([])
            res = w.e.invoke(st, f, [sym(ARGC), ("gh", "argv")], None, {"l": f["l"], "k": "call"})
            for s2, x in w.e.thrown.pop():
                w.must("status", {"l": f["l"], "k": "return"}, s2, False, "the program ends with an exception that nobody catches (%s)" % x)
            for s2, v in res:
                ends += 1
                w.final(s2, v, f)
    rep.count("ends", ends)
    for k, n in w.events.items():
        rep.count(k, n)
    rep.count("argument_lists", 2 ** len(tr))
    adopt(rep, w, f)


def adopt(rep, w, f):
    what = "/".join(sorted(w.tracked))
    for k, (n, bad, un) in w.e.oblig.items():
        if k[0] in KINDS and not bad and not un:
            rep.ok()
    for k, x in w.e.findings.items():
        if k[0] in KINDS:
            rep.violation("%s/%s/%s" % (k[0], x["fn"], x["msg"][:60]), "%s (%s)" % (x["loc"], x["fn"]), x["msg"], list(x["trace"])[-10:])
    for k, m in w.e.unresolved.items():
        rep.unresolved(what + "/" + "/".join(map(str, k)), m)


RULES = {
    "C18": "main is interpreted on an argument list of unknown length in which each argument may be a word, any of the options or something else; it is "
           "followed which of them occur, and that each has its effect wherever it stands: notations in the order given, structure, segmentation and dictionary "
           "for all words, every word (or line of input) analysed once and written in every notation in turn, nothing analysed with a wrong option",
}


RUNS = (["j", "g"], ["n"], ["d"], ["word"], ["notation"])


def one(tracked):
    rep = Report("C18", RULES["C18"])
    try:
        run(prog.Program(), rep, tracked)
    except NoFixpoint as x:
        rep.unresolved("/".join(tracked), str(x))
    except AnalysisBroken as x:
        return str(x)
    return rep


def check(pid):
    import multiprocessing
    rep = Report(pid, RULES[pid])
    prog.Program()
    with multiprocessing.get_context("fork").Pool(min(len(RUNS), multiprocessing.cpu_count())) as pool:
        parts = pool.map(one, RUNS, 1)
    for x in parts:
        if isinstance(x, str):
            raise AnalysisBroken(x)
        for k, n in x.counts.items():
            rep.count(k, n)
        rep.obligations += x.obligations
        rep.discharged += x.discharged
        for k, v in x.viol.items():
            rep.viol.setdefault(k, v)
        for k, v in x.unres.items():
            rep.unres.setdefault(k, v)
    if not rep.viol and not rep.unres:
        rep.floor("written", 100)
        rep.floor("segmentation", 2)
    return rep
