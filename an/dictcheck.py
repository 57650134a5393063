"""C15, C25, C17: the exception dictionary - opening, looking up, file format.

Dictionary objects, the file and the trie are handles in known states; every
library call may fail.  The public operations are interpreted abstractly from
every state the object can be in.
"""
import engine
import prog
from common import Report
from dom import I, sym, Z, aff_add, aff_scale
from engine import St, unk, NULL, VOID, TRUE, FALSE, NoFixpoint
from latt import fn, place
from prog import AnalysisBroken

N = ("size", "W")
LIVE, DONE = ("c", "live"), ("c", "released")
FAULT = ("gst", "fault")
LOG = ("gst", "log")
KINDS = ("released-twice", "used-after", "null-handle", "handle", "room", "walk", "null-deref", "array-bounds", "text-bounds", "null-string", "matching")


def aff(v):
    return v if v[0] == "l" else I(int(v[1])) if v[0] == "c" and isinstance(v[1], (int, bool)) else None


class DWorld:
    def __init__(self, p):
        self.p = p
        self.e = e = engine.Engine(p)
        e.unroll = 8
        e.maxnum = 4
        e.EX["new"] = self.new
        e.EX["delete"] = self.delete
        arith0 = e.arith

        def arith(st, op, a, b, t, node):
            r = self.pointer(st, op, a, b)
            return r if r is not None else arith0(st, op, a, b, t, node)
        e.arith = arith
        cons0 = e.construct_val

        def cons(st, x, f, ty, args):
            if "basic_string" in (ty.get("name") or "") and len(args) >= 1:
                v = e.val(st, args[0])
                b = self.block(st, v, deref=args[0])
                if b is not None:
                    self.live(st, x, ("ref", b[0], ()), "used-after")
                    return [(st, ("s", (("ext", ("at", b[0][1:], b[1])),)))]
            return cons0(st, x, f, ty, args)
        e.construct_val = cons
        self.decay(e)
        wrap0 = e.wrap_unsigned
        e.wrap_unsigned = lambda st, v, ty, node: [(st, v)] if bits(v, {}) is not None and len(v[1]) > 1 else wrap0(st, v, ty, node)
        h = e.hooks
        h["fopen"] = lambda e, st, n, o, a, f: self.make(st, n, "file", note="fopen")
        h["fclose"] = lambda e, st, n, o, a, f: self.drop(st, n, a[0], "file", fails=False)
        h["fread"] = self.fread
        h["trie_fread"] = self.trie_fread
        h["trie_new_from_file"] = lambda e, st, n, o, a, f: self.make(st, n, "trie", note="trie_new_from_file")
        h["trie_free"] = lambda e, st, n, o, a, f: self.drop(st, n, a[0], "trie")
        h["trie_root"] = self.root
        h["trie_state_free"] = lambda e, st, n, o, a, f: self.drop(st, n, a[0], "state")
        h["trie_state_rewind"] = self.rewind
        h["trie_state_walk"] = self.walk
        h["trie_state_is_terminal"] = self.terminal
        h["trie_state_is_walkable"] = self.walkable
        h["trie_state_get_data"] = self.data
        h["trie_state_get_terminal_data"] = self.data
        h["free"] = lambda e, st, n, o, a, f: [(st, VOID)] if a[0] == NULL else self.drop(st, n, a[0], "block")
        h["malloc"] = self.malloc

    def decay(self, e):
        """Arrays handed on as pointers are places, not values."""
        p = self.p
        cast0, args0 = e.e_cast, e.args

        def cast(st, x):
            if p.cat(x["e"].get("t", "?")) == "arr" and p.cat(x["t"]) == "ptr":
                return e.lv(st, x["e"])
            return cast0(st, x)

        def args(st, es, pts):
            if not any(x is not None and p.cat(x.get("t", "?")) == "arr" for x in es):
                return args0(st, es, pts)
            out = [(st, [])]
            for i, x in enumerate(es):
                nxt = []
                for s2, vs in out:
                    if x is not None and p.cat(x.get("t", "?")) == "arr" and x.get("k") != "str":
                        nxt += [(s3, vs + [r]) for s3, r in e.lv(s2, x)]
                    else:
                        nxt += [(s3, vs + w) for s3, w in args0(s2, [x], pts[i:i + 1] if pts is not None else None)]
                out = nxt
            return out
        declare0 = e.declare

        def declare(st, v):
            ty = p.ty(v["t"])
            if ty.get("cat") == "arr" and v.get("init") is None and not v.get("static") and 0 < (ty.get("n") or 0) <= 64:
                st.store[e.vroot(v["d"])] = ("A", (("uninit", v["n"]),) * ty["n"])
                return [st]
            return declare0(st, v)
        e.declare = declare
        e.e_cast = e.EX["cast"] = cast
        e.args = args

    # -- handles ---------------------------------------------------------
    def make(self, st, node, kind, note=None, extra=None):
        q = st.fork()
        q.store[FAULT] = TRUE
        q.note(self.e.where(node), "%s fails" % (note or kind))
        i = 0
        while ("res", kind, i) in st.store:
            i += 1
        r = ("res", kind, i)
        st.store[r] = LIVE
        if extra is not None:
            st.store[("gst", "room", r)] = extra
        return [(q, NULL), (st, ("ref", r, ()))]

    def block(self, st, v, deref=None):
        """(root, offset) if v points into an allocated block."""
        if v[0] == "ref" and v[1][0] == "res" and v[1][1] == "block":
            return v[1], I(0)
        if v[:2] == ("gh", "pt"):
            return v[2], v[3]
        if deref is not None and deref[0] == "ref" and deref[1][0] == "res" and deref[1][1] == "block":
            return deref[1], I(0)
        return None

    def live(self, st, node, v, kind="used-after"):
        if v == NULL or v == I(0):
            self.e.oblige("null-handle", node, st, False, "a null handle is used")
            return False
        if v[0] == "ref" and v[1][0] == "res":
            ok = st.store.get(v[1]) == LIVE
            self.e.oblige(kind, node, st, ok, "%s is used although it has been released" % v[1][1] if kind == "used-after" else "%s is released twice" % v[1][1])
            return ok
        self.e.oblige("handle", node, st, None, "handle not followed")
        st.taint = st.taint or "handle"
        return True

    def drop(self, st, node, v, kind, fails=False):
        if not self.live(st, node, v, "released-twice"):
            return []
        if v[0] == "ref":
            if v[1][1] != kind:
                self.e.oblige("handle", node, st, False, "%s released as %s" % (v[1][1], kind))
                return []
            st.store[v[1]] = DONE
        return [(st, I(0) if kind == "file" else VOID)]

    def new(self, st, e):
        out = []
        if not e.get("arr") or not e.get("n"):
            return [(st, self.e.giveup(st, "new", e))]
        for s2, n in self.e.ev(st, e["n"]):
            r = self.make(s2, e, "block", extra=n)
            out.append(r[1])
        return out

    def malloc(self, eng, st, node, obj, args, f):
        return self.make(st, node, "block", extra=args[0], note="malloc")

    def delete(self, st, e):
        out = []
        for s2, v in self.e.ev(st, e["e"]):
            if v == NULL:
                out.append((s2, VOID))
            else:
                out += self.drop(s2, e, v, "block")
        return out

    def pointer(self, st, op, a, b):
        if op == "+" and b[0] == "ref" and a[0] == "l":
            a, b = b, a
        if op not in ("+", "-") or b[0] != "l":
            return None
        p = self.block(st, a)
        if p is None:
            return None
        return [(st, ("gh", "pt", p[0], aff_add(p[1], b, 1 if op == "+" else -1)))]

    # -- reading ---------------------------------------------------------
    def log(self, st, tok):
        v = st.store.get(LOG)
        if v is not None:
            st.store[LOG] = ("c", v[1] + (tok,))

    def trie_fread(self, eng, st, node, obj, args, f):
        if not self.live(st, node, args[0]):
            return []
        r = self.make(st, node, "trie", note="trie_fread")
        self.log(r[1][0], ("trie",))
        return r

    def fread(self, eng, st, node, obj, args, f):
        buf, size, cnt, file = args
        if not self.live(st, node, file):
            return []
        size, cnt = aff(eng.val(st, size)), aff(eng.val(st, cnt))
        if size is None or cnt is None or size[1] and cnt[1]:
            eng.unknown_call(st, node, f, args)
            return [(st, unk("fread"))]
        total = aff_scale(size, cnt[2]) if not cnt[1] else aff_scale(cnt, size[2])
        out = []
        # short
        q = st.fork()
        q.store[FAULT] = TRUE
        q.note(eng.where(node), "fread falls short")
        if cnt == I(1):
            got = I(0)
        else:
            x = ("got", eng.where(node))
            q.dbm.add(Z, x, 0)
            got = sym(x)
            if eng.assume_le(q, aff_add(got, cnt, -1), -1) is None:
                q = None
        if q is not None:
            self.fill(q, buf, total, False)
            out.append((q, got))
        # in full
        b = self.block(st, buf)
        if b is not None:
            if not self.live(st, node, ("ref", b[0], ())):
                return out
            room = st.store.get(("gst", "room", b[0]))
            room = aff(room) if room is not None else None
            need = aff_add(b[1], total)
            ok = None if room is None else room == need or eng.prove_le(st, aff_add(need, room, -1))
            eng.oblige("room", node, st, ok, "more is read than there is room for")
            self.log(st, ("block", total))
        elif buf[0] == "ref":
            v = eng.read(st, ("ref", buf[1], buf[2][:-1]) if buf[2] and isinstance(buf[2][-1], tuple) and buf[2][-1][0] == "i" else buf)
            if v[0] == "A" and not total[1]:
                eng.oblige("room", node, st, total[2] <= len(v[1]), "more is read than there is room for")
            names = self.fill(st, buf, total, True)
            self.log(st, ("bytes", total, names))
        else:
            eng.oblige("room", node, st, None, "buffer not followed")
            self.log(st, ("bytes", total, None))
        out.append((st, cnt))
        return out

    def fill(self, st, buf, total, named):
        """Unknown bytes arrive in a buffer."""
        if buf[0] != "ref":
            return None
        ref = buf
        if buf[2] and isinstance(buf[2][-1], tuple) and buf[2][-1][0] == "i":
            ref = ("ref", buf[1], buf[2][:-1])
        v = self.e.read(st, ref)
        if v[0] != "A" or total[1]:
            if v[0] != "c":
                self.e.write(st, buf, unk("read"))
            return None
        lo = buf[2][-1][1] if ref is not buf else 0
        n = len(st.store[LOG][1]) if LOG in st.store else 0
        els = list(v[1])
        names = []
        for i in range(total[2]):
            if lo + i < len(els):
                s = ("byte", n, i)
                st.dbm.add(s, Z, 255)
                st.dbm.add(Z, s, 0)
                els[lo + i] = sym(s)
                names.append(s)
        self.e.write(st, ref, ("A", tuple(els)))
        return tuple(names)

    # -- looking up ------------------------------------------------------
    NEXT, ASKED, TERM, FAILED = ("gst", "next"), ("gst", "asked"), ("gst", "term"), ("gst", "failed")

    def root(self, eng, st, node, obj, args, f):
        if not self.live(st, node, args[0]):
            return []
        r = self.make(st, node, "state", note="trie_root")
        s2 = r[1][0]
        if ("gst", "begin") in s2.store:
            s2.store[self.NEXT] = s2.store[("gst", "begin")]
        s2.store[self.ASKED] = TRUE
        s2.store[self.TERM] = FALSE
        s2.store[self.FAILED] = FALSE
        return r

    def rewind(self, eng, st, node, obj, args, f):
        if not self.live(st, node, args[0]):
            return []
        st.store[self.NEXT] = st.store[("gst", "begin")]
        st.store[self.ASKED] = TRUE
        st.store[self.TERM] = FALSE
        st.store[self.FAILED] = FALSE
        return [(st, VOID)]

    def walk(self, eng, st, node, obj, args, f):
        if not self.live(st, node, args[0]):
            return []
        c = eng.val(st, args[1])
        at = None
        if c[0] == "f" and isinstance(c[1], tuple) and c[1][0] == "ch" and c[2] is c[2].uni.ident[2] if c[0] == "f" and isinstance(c[2].uni.ident, tuple) else c[0] == "f" and isinstance(c[1], tuple) and c[1][0] == "ch":
            at = c[1][2]
        elif c[0] == "l" and len(c[1]) == 1 and c[1][0][1] == 1 and c[2] == 0 and isinstance(c[1][0][0], tuple) and c[1][0][0][0] in ("ch", "chn"):
            at = c[1][0][0][2]
        elif c == I(0):
            eng.oblige("walk", node, st, False, "looks up the character behind the end of the text")
            return []
        nxt = st.store.get(self.NEXT)
        if at is None or nxt is None:
            eng.oblige("walk", node, st, None, "character looked up not followed: %s" % (c[:2],))
            st.taint = st.taint or "walk"
        else:
            d = aff_add(at, nxt, -1)
            ok = eng.lo(st, d) == 0 == eng.hi(st, d)
            eng.oblige("walk", node, st, ok, "looks up the character at %s where the one at %s comes next" % (eng.affname(at), eng.affname(nxt)))
        ok = st.store.get(self.ASKED) == TRUE and st.store.get(self.TERM) == FALSE
        eng.oblige("matching", node, st, ok, "goes on although an entry may end here that has not been reported")
        q = st.fork()
        q.store[self.FAILED] = TRUE
        q.note(eng.where(node), "no entry goes on with this character")
        if at is not None:
            st.store[self.NEXT] = aff_add(at, I(1))
        st.store[self.ASKED] = FALSE
        st.store[self.TERM] = FALSE
        st.store[self.FAILED] = FALSE
        st.note(eng.where(node), "entries go on with this character")
        b = f["rt"] != "bool"
        return [(q, I(0) if b else FALSE), (st, I(1) if b else TRUE)]

    def walkable(self, eng, st, node, obj, args, f):
        c = eng.val(st, args[1])
        if c == I(0):
            return self.terminal(eng, st, node, obj, args, f)
        if not self.live(st, node, args[0]):
            return []
        return [(st, I(1)), (st.fork(), I(0))]

    def terminal(self, eng, st, node, obj, args, f):
        if not self.live(st, node, args[0]):
            return []
        if st.store.get(self.ASKED) == TRUE:
            t = st.store.get(self.TERM)
            return [(st, I(1) if t == TRUE else I(0))]
        q = st.fork()
        for s, r in ((st, TRUE), (q, FALSE)):
            s.store[self.ASKED] = TRUE
            s.store[self.TERM] = r
        st.note(eng.where(node), "an entry ends here")
        return [(st, I(1)), (q, I(0))]

    def data(self, eng, st, node, obj, args, f):
        if not self.live(st, node, args[0]):
            return []
        q = st.fork()
        st.dbm.add(Z, ("index",), 0)
        self.log(st, ("data",))
        return [(q, I(-1)), (st, sym(("index",)))]


def owned(w, st, v, out):
    if v[0] == "ref" and v[1][0] == "res":
        out.add(v[1])
    elif v[:2] == ("gh", "pt"):
        out.add(v[2])
    elif v[0] in ("r", "A"):
        for x in v[2] if v[0] == "r" else v[1]:
            owned(w, st, x, out)
    return out


def lives(st):
    return {r for r, v in st.store.items() if r[0] == "res" and v == LIVE}


SELF = ("ref", ("t", 0, "dict"), ())
PATH = ("s", (("ext", ("E", "path")),))


def blank(w):
    st = St()
    st.store[SELF[1]] = w.e.default_rec(st, {"name": "Dict", "cat": "rec"})
    st.store[LOG] = ("c", ())
    st.store[FAULT] = FALSE
    return st


def call(w, rep, st, what, f, args, this=SELF):
    """Results of one public operation, or none if it cannot be followed."""
    out = []
    res = w.e.invoke(st, f, args, this, {"l": "entry", "k": "mcall"})
    for s2, v in res:
        if s2.taint:
            rep.unresolved(what, str(s2.taint))
        else:
            out.append((s2, v))
    return out


def ctor(p, n):
    for f in p.byname.get("Dict::Dict", ()):
        if f.get("ctor") and len(f["f"]["pt"]) == n and (n == 0 or "char" in f["f"]["pt"][0]) and (f.get("b") or f.get("inits")):
            return f
    raise AnalysisBroken("constructor of Dict with %d arguments not found" % n)


def trieof(w, p, st):
    r = w.e.invoke(st.fork(), fn(p, "Dict::trie"), [], SELF, {"l": "entry", "k": "mcall"})
    return [v for _, v in r]


def unset(w, v):
    for (n, t), x in zip(w.e.fieldtypes(v[1]), v[2]):
        if x[0] == "uninit" and w.p.cat(t) == "ptr":
            return n
    return None


def settled(w, p, rep, what, f, st, opened):
    """Nothing leaks, nothing dead is kept; open or closed as promised."""
    own = owned(w, st, st.store[SELF[1]], set())
    live = lives(st)
    bad = None
    if opened is None and live:
        bad = "%s is not released at the end" % sorted(live)[0][1]
    elif what.startswith("new") and unset(w, st.store[SELF[1]]):
        bad = "`%s' is left unset" % unset(w, st.store[SELF[1]])
    elif live - own:
        bad = "%s is never released" % sorted(live - own)[0][1]
    elif own - live and opened is not None:
        bad = "keeps a released %s" % sorted(own - live)[0][1]
    elif opened and not {r[1] for r in own} >= {"trie", "block"}:
        bad = "reports success without %s" % ("the words" if "trie" not in {r[1] for r in own} else "the data")
    elif opened is False and own:
        bad = "keeps a %s although no dictionary is open" % sorted(own)[0][1]
    elif opened is False and any(v != NULL for v in trieof(w, p, st)):
        bad = "a dictionary can still be looked up in although none is open"
    elif opened and any(v[0] != "ref" for v in trieof(w, p, st)):
        bad = "nothing can be looked up in an open dictionary"
    rep.count("outcomes")
    if bad:
        rep.violation("%s/%s" % (what, bad), place(f), bad, st.trace())
    else:
        rep.ok()
    return not bad


def reading(st):
    """The bytes of a dictionary file in the order in which they were read."""
    return st.store[LOG][1]


def states(w, p, rep):
    """(closed states, open states) of a dictionary object."""
    f0 = ctor(p, 0)
    closed, opened = [], []
    for st, v in call(w, rep, blank(w), "new", f0, []):
        if settled(w, p, rep, "new", f0, st, False):
            closed.append(st)
    fo = fn(p, "Dict::open", ["char *"]) if p.byname.get("Dict::open") else None
    if fo is None:
        raise AnalysisBroken("Dict::open not found")
    for st in closed:
        for s2, v in call(w, rep, st.fork(), "open", fo, [PATH]):
            if v in (TRUE, I(1)):
                opened.append(s2)
    return closed, opened, fo


def opening(p, rep):
    w = DWorld(p)
    closed, opened, fo = states(w, p, rep)
    if not opened and not rep.unres and not rep.viol:
        rep.violation("open/never", place(fo), "no dictionary file is ever accepted", [])
    fc, fd = fn(p, "Dict::close", []), p.byname.get("Dict::~Dict", [None])[0]
    for name_, sts in (("closed", closed), ("open", opened)):
        for st in sts:
            # opening another one
            s = st.fork()
            s.store[LOG] = ("c", ())
            s.store[FAULT] = FALSE
            was = lives(s)
            for s2, v in call(w, rep, s, "open", fo, [PATH]):
                if v not in (TRUE, FALSE, I(0), I(1)):
                    rep.unresolved("open", "result not followed")
                    continue
                ok = v in (TRUE, I(1))
                what = "opening from %s" % name_
                if not settled(w, p, rep, what, fo, s2, ok):
                    continue
                fault = s2.store[FAULT] == TRUE
                if ok and fault:
                    rep.violation(what + "/fault", place(fo), "accepts a dictionary although reading it has failed", s2.trace())
                elif ok and lives(s2) & was:
                    rep.violation(what + "/old", place(fo), "still uses parts of the dictionary open before", s2.trace())
                elif ok:
                    whole(w, rep, fo, what, s2)
                elif not fault and not shortlength(s2):
                    rep.violation(what + "/refused", place(fo), "refuses a dictionary although it could be read completely", s2.trace())
                else:
                    rep.ok()
            # closing, twice
            for s2, v in call(w, rep, st.fork(), "close", fc, []):
                if settled(w, p, rep, "closing from %s" % name_, fc, s2, False):
                    for s3, v in call(w, rep, s2, "close", fc, []):
                        settled(w, p, rep, "closing twice", fc, s3, False)
            if fd is None:
                if lives(st):
                    rep.violation("end/none", place(fo), "an open dictionary is never released", [])
            else:
                for s2, v in call(w, rep, st.fork(), "end", fd, []):
                    settled(w, p, rep, "end of a dictionary, %s" % name_, fd, s2, None)
    # constructor that opens
    f1 = ctor(p, 1)
    for st, v in call(w, rep, blank(w), "new", f1, [PATH]):
        own = owned(w, st, st.store[SELF[1]], set())
        op = bool(own)
        if settled(w, p, rep, "new with path", f1, st, op):
            if op and st.store[FAULT] == TRUE:
                rep.violation("new/fault", place(f1), "uses a dictionary although reading it has failed", st.trace())
            elif op:
                whole(w, rep, f1, "new with path", st)
    adopt(rep, w, "opening")
    if not rep.viol and not rep.unres:
        rep.floor("outcomes", 12)


def shortlength(st):
    """Was the dictionary refused because of the length it states?"""
    log = reading(st)
    return any(t[0] == "bytes" for t in log) and not any(t[0] == "block" for t in log)


def bits(v, out, by=0):
    """{byte: shift} of a number put together from bytes, or None."""
    if v[0] != "l":
        return None
    k = v[2]
    if k:
        return None
    for s, c in v[1]:
        sh = by
        if c <= 0 or c & (c - 1):
            return None
        sh += c.bit_length() - 1
        if isinstance(s, tuple) and s[0] == "byte":
            if s in out:
                return None
            out[s] = sh
        elif isinstance(s, tuple) and s[0] == "op" and s[1] in ("|", "^", "+"):
            if bits(s[2], out, sh) is None or bits(s[3], out, sh) is None:
                return None
        elif isinstance(s, tuple) and s[0] == "op" and s[1] == "<<" and not s[3][1]:
            if bits(s[2], out, sh + s[3][2]) is None:
                return None
        elif isinstance(s, tuple) and s[0] in ("wrap", "trunc") and s[0] == "wrap":
            if bits(s[1], out, sh) is None:
                return None
        elif isinstance(s, tuple) and s[0] == "op" and s[1] == "&" and not s[3][1] and s[3][2] == 255:
            if bits(s[2], out, sh) is None:
                return None
        else:
            return None
    return out


def layout_read(log):
    """What a complete reading says about the file: (problem, parts)."""
    parts = []
    lens = {}
    for t in log:
        if t[0] == "trie":
            parts.append(("trie",))
        elif t[0] == "bytes":
            if t[2] is None or t[1][1]:
                return "UNKNOWN bytes not followed", None
            for i, s in enumerate(t[2]):
                lens[s] = len(parts)
                parts.append(("byte", s))
        elif t[0] == "block":
            d = bits(t[1], {})
            if d is None:
                return "UNKNOWN length of the data not followed", None
            parts.append(("block", d))
    return None, parts


def whole(w, rep, f, what, st):
    """The data must be as long as the file says."""
    err, parts = layout_read(reading(st))
    if err:
        rep.unresolved(what, err)
        return
    blocks = [x for x in parts if x[0] == "block"]
    by = [x[1] for x in parts if x[0] == "byte"]
    if len(blocks) != 1 or set(blocks[0][1]) != set(by) or sorted(blocks[0][1].values()) != [8 * i for i in range(len(by))]:
        rep.violation(what + "/part", place(f), "less or more is read than the file says there is", st.trace())
    else:
        rep.ok()


def adopt(rep, w, what):
    for k, (n, bad, un) in w.e.oblig.items():
        if k[0] in KINDS and not bad and not un:
            rep.ok()
    for k, x in w.e.findings.items():
        if k[0] in KINDS:
            rep.violation("%s/%s/%s" % (what, k[0], x["fn"]), "%s (%s)" % (x["loc"], x["fn"]), x["msg"], list(x["trace"])[-8:])
    for k, m in w.e.unresolved.items():
        if k[0] == "uninitialised-read" and str(m[1]).startswith("uninitialised"):
            rep.violation("%s/unset/%s" % (what, m[0]), k[1], m[0], [])
        rep.unresolved(what + "/" + "/".join(map(str, k)), m)


def matching(p, rep):
    w = DWorld(p)
    e = w.e
    closed, opened, fo = states(w, p, rep)
    fm = None
    for f in p.byname.get("Match::Match", ()):
        if f.get("ctor") and len(f["f"]["pt"]) == 3:
            fm = f
    if fm is None:
        raise AnalysisBroken("Match (text, position, dictionary) not found")
    fnext, fpos, fdata = fn(p, "Match::findNext", []), fn(p, "Match::getCurPos", []), fn(p, "Match::getData", [])
    fend = p.byname.get("Match::~Match", [None])[0]
    ME = ("ref", ("t", 0, "match"), ())
    B = ("par", "begin")
    e.pinned = {B, C, N}
    for name_, sts in (("closed", closed), ("open", opened)):
        for st in sts:
            st = st.fork()
            st.dbm.add(Z, B, 0)
            st.dbm.add(B, N, 0)
            st.store[("t", 0, "word")] = ("txt", "W", N)
            st.store[("gst", "begin")] = sym(B)
            st.store[ME[1]] = e.default_rec(st, {"name": "Match", "cat": "rec"})
            before = lives(st)
            cur = [s for s, v in call(w, rep, st, "matcher", fm, [("ref", ("t", 0, "word"), ()), sym(B), SELF], ME)]
            for rnd in range(3):
                nxt = []
                for st in cur:
                    # the end of the matcher
                    if fend is not None:
                        for s2, v in call(w, rep, st.fork(), "end", fend, [], ME):
                            own = owned(w, s2, s2.store[SELF[1]], set())
                            if lives(s2) - own or own - lives(s2):
                                rep.violation("end/%s" % name_, place(fend), "ending a lookup leaves a handle open or releases the dictionary", s2.trace())
                            else:
                                rep.ok()
                    elif lives(st) - before:
                        rep.violation("end/none", place(fm), "a lookup is never released", [])
                    live = any(r[1] == "state" for r in lives(st))
                    s = st.fork()
                    if live:
                        # what was reported has been seen
                        s.store[w.TERM] = FALSE
                    for s2, v in call(w, rep, s, "lookup", fnext, [], ME):
                        if v not in (TRUE, FALSE, I(0), I(1)):
                            rep.unresolved("lookup", "result not followed")
                            continue
                        found = v in (TRUE, I(1))
                        rep.count("lookups")
                        bad = None
                        if found and not live:
                            bad = "reports a match without a dictionary"
                        elif found:
                            pos = [x for _, x in call(w, rep, s2.fork(), "position", fpos, [], ME)]
                            np = s2.store[w.NEXT]
                            for x in pos:
                                if x[0] != "l":
                                    rep.unresolved("position", "not followed")
                                    continue
                                d = aff_add(x, np, -1)
                                if s2.store.get(w.TERM) != TRUE:
                                    bad = "reports a match where no entry ends"
                                elif not (e.lo(s2, d) == 0 == e.hi(s2, d)):
                                    bad = "reports %s as the end of a match that ends at %s" % (e.affname(x), e.affname(np))
                                elif not (e.prove_le(s2, aff_add(sym(B), x, -1), -1) and e.prove_le(s2, aff_add(x, sym(N), -1))):
                                    bad = "reports a match that is empty or goes beyond the text"
                            for s3, x in call(w, rep, s2.fork(), "data", fdata, [], ME):
                                getdata(w, rep, fdata, s3, x)
                            if not bad:
                                s3 = again(w, s2, ME, B)
                                if s3 is None:
                                    rep.unresolved("lookup", "what is kept between two calls is not followed")
                                elif not any(e.same_key(s3) == e.same_key(o) for o in nxt):
                                    nxt.append(s3)
                        elif live:
                            np = s2.store[w.NEXT]
                            if s2.store.get(w.TERM) == TRUE or s2.store.get(w.ASKED) != TRUE:
                                bad = "ends although an entry may end here that has not been reported"
                            elif s2.store.get(w.FAILED) != TRUE and not e.prove_le(s2, aff_add(sym(N), np, -1)):
                                bad = "ends although longer entries may follow"
                        if bad:
                            rep.violation("lookup/%s" % bad[:50], place(fnext), bad, s2.trace())
                        else:
                            rep.ok()
                cur = nxt
    adopt(rep, w, "lookup")
    if not rep.viol and not rep.unres:
        rep.floor("lookups", 6)


C = ("par", "current")


def again(w, st, ME, B):
    """The state before the next call, with any position beyond the start."""
    e = w.e
    st = st.fork()
    np = st.store[w.NEXT]
    v = st.store[ME[1]]
    vals = []
    for x in v[2]:
        if x[0] == "l" and x != sym(B):
            d = aff_add(x, np, -1)
            if not e.lo(st, d) == 0 == e.hi(st, d):
                return None
            x = sym(C)
        vals.append(x)
    st.store[ME[1]] = ("r", v[1], tuple(vals))
    st.store[w.NEXT] = sym(C)
    for s in st.dbm.syms():
        if s not in (B, N, Z):
            st.dbm.forget(s)
    st.dom = {}
    st.dbm.add(Z, B, 0)
    st.dbm.add(Z, C, -1)
    st.dbm.add(B, C, -1)
    st.dbm.add(C, N, 0)
    return st


def getdata(w, rep, f, st, v):
    if v[0] != "s":
        rep.unresolved("data", "result not followed")
        return
    asked = any(t[0] == "data" for t in st.store[LOG][1])
    own = owned(w, st, st.store[SELF[1]], set())
    if not asked:
        if v[1]:
            rep.violation("data/none", place(f), "data is made up for an entry without data", st.trace())
        else:
            rep.ok()
        return
    ok = len(v[1]) == 1 and v[1][0][0] == "ext" and v[1][0][1][0] == "at" and v[1][0][1][2] == sym(("index",)) \
        and ("res",) + v[1][0][1][1] in own
    if ok:
        rep.ok()
    else:
        rep.violation("data/place", place(f), "the data of an entry is not taken from its place", st.trace())


RULES = {
    "C15": "open, close, both constructors and the destructor are interpreted from the closed and from the open state with every "
           "library call succeeding or failing; success requires that no call failed and that exactly the stated amount was read, "
           "failure and closing leave nothing to look up in, every handle is released exactly once and used only while live",
    "C25": "lookup is interpreted on a text of unknown length from every position with a trie that answers anything: characters are "
           "looked up consecutively from the start position, every place where an entry ends is reported once with its end position, and "
           "lookup ends only where no entry goes on or the text ends; the data is what stands at the place the entry names",
}


def check(pid):
    rep = Report(pid, RULES[pid])
    p = prog.Program()
    for g in ((opening,) if pid == "C15" else (matching,)):
        try:
            g(p, rep)
        except NoFixpoint as x:
            rep.unresolved(g.__name__, str(x))
    return rep
