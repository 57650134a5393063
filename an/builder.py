"""C16, C17: the dictionary builder.

The program is interpreted abstractly on an input of any number of lines, each
a word of Thai letters, a tab and its data, with lengths unknown.  Memory
blocks carry what they hold: the current line, its word decoded so far, its
data.  Every library call may fail.  What is written is compared with what
the reader of dictionaries reads.
"""
import engine
import prog
from common import Report
from dictcheck import DWorld, aff, LIVE, DONE, FAULT, LOG, layout_read, reading, states
from dom import I, sym, Z, aff_add, aff_scale
from engine import St, unk, NULL, VOID, TRUE, FALSE, NoFixpoint
from prog import AnalysisBroken

BUF = ("c", "buffer")
LIN = ("gst", "lin")
NOLIN = ("gh", "lin", ())
LINE, EOFF, ERR, ANY, INV, CLOSED, ARGC, STORED, WHY = (("gst", "b", x) for x in ("line", "eof", "err", "any", "inv", "closed", "argc", "stored", "why"))
M, WB, LD = ("b", "letters"), ("b", "wordbytes"), ("b", "datalen")
MAXLINE = 255
THAI = tuple(range(0x0E01, 0x0E3B)) + tuple(range(0x0E3F, 0x0E5C))
BADSEQ = {-1: (0x80, 0x80, 0x80), -2: (0xE0, 0xB8, 0x41)}
K16 = ("status", "lines", "files", "null-handle", "used-after", "released-twice", "null-deref")
K17 = ("word", "place", "layout", "room", "array-bounds")


def pt(root, off):
    return ("gh", "pt", root, off)


def ispt(v):
    return v[:2] == ("gh", "pt")


def text(v):
    c = engine.strconst(v)
    return c if c is None or isinstance(c, str) else "".join(chr(x) if isinstance(x, int) else x for x in c)


class BWorld(DWorld):
    def __init__(self, p):
        DWorld.__init__(self, p)
        e = self.e
        # loops over the input are summed up at once, loops over bits followed
        e.joinhead = lambda c: c is None or c["k"] in ("int", "bool") or any(x["k"] == "call" or x["k"] == "un" and x["op"] == "*" or x["k"] == "idx" for x in prog.walk(c))
        e.facts = lambda st: []
        e.pinned = {M, WB, LD}
        e.refvars, e.statics = set(), {}
        self.letters = e.uni("letters", THAI + tuple(BADSEQ))
        self.memo = None
        self.wrap(e)
        h = e.hooks
        for n in ("fprintf", "printf", "puts", "fputs", "perror", "vfprintf", "fflush", "putchar"):
            h[n] = self.says
        h["alpha_char_strlen"] = self.says
        h["setlocale"] = lambda e, st, n, o, a, f: [(st, unk("locale"))]
        h["exit"] = lambda e, st, n, o, a, f: self.final(st, a[0], n) or []
        h["abort"] = lambda e, st, n, o, a, f: []
        h["malloc"] = lambda e, st, n, o, a, f: [(st, self.alloc(st, "block", a[0]))]
        h["calloc"] = self.calloc
        h["realloc"] = self.realloc
        h["free"] = self.free
        h["fopen"] = self.fopen
        h["fclose"] = self.fclose
        h["ferror"] = lambda e, st, n, o, a, f: self.asks(st, n, a[0], ERR)
        h["feof"] = lambda e, st, n, o, a, f: self.asks(st, n, a[0], EOFF)
        h["fgets"] = self.fgets
        h["strlen"] = self.strlen
        h["strchr"] = h["strrchr"] = h["index"] = h["rindex"] = self.strchr
        h["strcspn"] = self.strcspn
        h["strcpy"] = self.strcpy
        h["strncpy"] = self.strncpy
        h["memcpy"] = h["memmove"] = self.memcpy
        h["memset"] = self.memset
        h["strdup"] = self.strdup
        h["fwrite"] = self.fwrite
        h["fputc"] = h["putc"] = self.fputc
        h["alpha_map_new"] = lambda e, st, n, o, a, f: [self.make(st, n, "map")[1]]
        h["alpha_map_add_range"] = self.addrange
        h["alpha_map_free"] = lambda e, st, n, o, a, f: self.release(st, n, a[0], "map")
        h["trie_new"] = self.trie_new
        h["trie_free"] = lambda e, st, n, o, a, f: self.release(st, n, a[0], "trie")
        h["trie_store"] = h["trie_store_if_absent"] = self.store
        h["trie_fwrite"] = self.trie_fwrite

    # -- the engine learns about pointers into buffers ---------------------
    def wrap(self, e):
        p = self.p
        arith0, cmp0, branch0, neg0 = e.arith, e.cmp, e.branch, e.negate
        lv0, read0, write0, deref0, idx0 = e.lv, e.read, e.write, e.deref, e.index
        skel0, joinval0, join0, head0 = e.skel, e.joinval, e.join_states, e.headjoin
        le0, prove0, declare0 = e.assume_le, e.prove_le, e.declare
        un0, eidx0, else0, cast0 = e.EX["un"], e.EX["idx"], e.elsewhere, e.EX["cast"]

        def arith(st, op, a, b, t, node):
            if ispt(a) and ispt(b) and op == "-":
                return [(st, aff_add(a[3], b[3], -1) if a[2] == b[2] else unk("difference"))]
            if ispt(b) and op == "+":
                a, b = b, a
            if ispt(a) and op in ("+", "-"):
                return [(s2, pt(a[2], aff_add(a[3], x, 1 if op == "+" else -1)) if x[0] == "l" else unk("pointer")) for s2, x in e.toint(st, b)]
            if a == NULL and op in ("+", "-"):
                return [(st, NULL)]
            return arith0(st, op, a, b, t, node)

        def cmp(st, op, a, b, node=None):
            if ispt(a) and ispt(b):
                if a[2] == b[2]:
                    return cmp0(st, op, a[3], b[3], node)
                if op in ("==", "!="):
                    return [(st, ("c", op == "!="))]
            if (ispt(a) and b in (NULL, I(0)) or ispt(b) and a in (NULL, I(0))) and op in ("==", "!="):
                return [(st, ("c", op == "!="))]
            return cmp0(st, op, a, b, node)

        def branch(st, v, node):
            if ispt(v):
                return [st], []
            return branch0(st, v, node)

        def lv(st, x):
            if x["k"] == "idx":
                out = []
                for s2, (b, i) in e.idxparts(st, x):
                    if ispt(b):
                        out += [(s3, pt(b[2], aff_add(b[3], j)) if j[0] == "l" else unk("index")) for s3, j in e.toint(s2, i)]
                    elif b[:2] == ("gh", "argv"):
                        out += [(s3, e.temp(s3, x, v)) for s3, v in e.index(s2, b, i, x)]
                    else:
                        out.append((s2, None))
                if all(r is not None for _, r in out):
                    return out
            return [(s2, self.buffer(s2, r)) for s2, r in lv0(st, x)]

        def read(st, r):
            if ispt(r):
                got = self.get(st, r, None, {"l": "?"})
                return got[0][1] if len(got) == 1 else unk("content")
            return read0(st, r)

        def write(st, r, v):
            if ispt(r):
                return self.put1(st, r, v)
            return write0(st, r, v)

        def deref(st, v, node):
            if ispt(v):
                if not self.alive(st, node, v):
                    return []
                if node["k"] == "mem" or node["k"] == "un" and p.cat(node.get("t", "?")) == "rec":
                    r = ("rec", v[2])
                    if v[3] != I(0):
                        return [(st, unk("record in a block"))]
                    if r not in st.store:
                        t = p.ty(p.ty(node["b"]["t"]).get("to", "?")) if node["k"] == "mem" else p.ty(node["t"])
                        st.store[r] = e.default_rec(st, t)
                    return [(st, ("ref", r, ()))]
                return [(st, v)]
            return deref0(st, v, node)

        def index(st, b, i, node):
            if ispt(b):
                out = []
                for s2, j in e.toint(st, i):
                    if j[0] == "l":
                        out += self.get(s2, pt(b[2], aff_add(b[3], j)), node.get("t"), node)
                    else:
                        out.append((s2, e.giveup(s2, "index", node)))
                return out
            if b[:2] == ("gh", "argv"):
                c = engine.const(i)
                return [(st, ("s", (("ext", ("arg", c)),)) if c is not None else unk("argv"))]
            return idx0(st, b, i, node)

        def un(st, x):
            if x["op"] == "*":
                out = []
                for s2, v in e.ev(st, x["e"]):
                    if ispt(v) and p.cat(x.get("t", "?")) != "rec":
                        out += self.get(s2, v, x.get("t"), x)
                    elif v[:2] == ("gh", "argv"):
                        out.append((s2, unk("argv")))
                    else:
                        for s3, r in e.deref(s2, v, x):
                            out.append((s3, e.read(s3, r)))
                return out
            return un0(st, x)

        def eidx(st, x):
            out = []
            for s2, (b, i) in e.idxparts(st, x):
                out += e.index(s2, b, i, x)
            return out

        def skel(v):
            if v[0] == "gh":
                return tuple(sk(x) for x in v)
            if v[0] == "f":
                return ("f", v[2])
            return skel0(v)

        def sk(x):
            return "i" if isinstance(x, tuple) and x and x[0] == "l" and len(x) == 3 else x

        def joinval(va, vb, lk, root, path, a2, b):
            if va == vb:
                return va
            if va[0] == "gh" == vb[0] and len(va) == len(vb):
                out = []
                for i, (x, y) in enumerate(zip(va, vb)):
                    if x == y:
                        out.append(x)
                    elif isinstance(x, tuple) and isinstance(y, tuple) and x and y and x[0] == "l" == y[0]:
                        d = aff_add(x, y, -1)
                        if ispt(va) and self.bychar(x) and self.bychar(y) and (x[2] - y[2]) % 3 == 0:
                            k = x[2] % 3
                            q = [("l", tuple((s, c // 3) for s, c in z[1]), (z[2] - k) // 3) for z in (x, y)]
                            j = e.joinval(q[0], q[1], lk, root, path + (i,), a2, b)
                            out.append(aff_add(aff_scale(j, 3), I(k)))
                        else:
                            out.append(e.joinval(x, y, lk, root, path + (i,), a2, b))
                    else:
                        return joinval0(va, vb, lk, root, path, a2, b)
                return tuple(out)
            if va[0] == "f" == vb[0] and va[2] is vb[2]:
                ph = ("phi", lk, root, path)
                for s, v in ((a2, va), (b, vb)):
                    if v[1] != ph:
                        m = s.dom.get(v[1], v[2].uni.full)
                        s.dom[ph] = m
                return ("f", ph, va[2])
            if va[0] == "l" == vb[0] and self.memo is not None:
                # two numbers that are equal on both sides stay equal
                key = (va[1], vb[1], va[2] - vb[2])
                hit = self.memo.get(key)
                if hit is not None:
                    return aff_add(hit[0], I(va[2] - hit[1]))
                r = joinval0(va, vb, lk, root, path, a2, b)
                self.memo[key] = (r, va[2])
                return r
            return joinval0(va, vb, lk, root, path, a2, b)

        def join(a, b, lk, widen):
            self.memo = {}
            try:
                return join0(a, b, lk, widen)
            finally:
                self.memo = None

        def elsewhere(st, x):
            if len(x) >= 4 and x[3]:
                return False
            return else0(st, x)

        def headjoin(heads, st, s):
            st.store[LIN] = NOLIN
            return head0(heads, st, s)

        def assume_le(st, v, k=0):
            r = le0(st, v, k)
            if r is not None and v[0] == "l" and (len(v[1]) > 2 or len(v[1]) == 2 and v[1][0][1] != -v[1][1][1]):
                r.store[LIN] = ("gh", "lin", r.store.get(LIN, NOLIN)[2] + ((v, k),))
            return r

        def prove_le(st, v, k=0):
            if prove0(st, v, k):
                return True
            b = self.bound(st, v)
            if b is not None and b <= k:
                return True
            # by way of a number that bounds one in v
            for s, c in v[1]:
                for t in e.pinned if c == 1 else ():
                    d = st.dbm.get(s, t)
                    if d is not None and t != s and prove0(st, aff_add(aff_add(v, sym(s), -1), sym(t, d)), k):
                        return True
            return False

        def declare(st, v):
            ty = p.ty(v["t"])
            if ty.get("cat") == "arr" and (ty.get("n") or 0) > 64:
                r = ("sl", v["d"]) if v.get("static") else e.vroot(v["d"])
                if v.get("static"):
                    e.statics[v["d"]] = v
                    if r in st.store:
                        return [st]
                st.store[r] = BUF
                self.setup(st, r, I(ty["n"]))
                return [st]
            return declare0(st, v)

        def negate(st, v, x):
            return FALSE if ispt(v) else neg0(st, v, x)

        def cast(st, x):
            if x["ck"] == "PointerToBoolean":
                return [(s2, TRUE if ispt(v) else v) for s2, v in cast0(st, x)]
            return cast0(st, x)
        for n, g in (("arith", arith), ("cmp", cmp), ("branch", branch), ("lv", lv), ("read", read), ("write", write), ("deref", deref),
                     ("index", index), ("skel", skel), ("joinval", joinval), ("join_states", join), ("headjoin", headjoin), ("negate", negate),
                     ("assume_le", assume_le), ("prove_le", prove_le), ("declare", declare), ("elsewhere", elsewhere)):
            setattr(e, n, g)
        bin0 = e.EX["bin"]

        def binary(st, x):
            if x["op"].endswith("="):
                self.node = x
            return bin0(st, x)
        e.EX["un"], e.EX["idx"], e.EX["cast"], e.EX["bin"] = un, eidx, cast, binary

        def rv(st, x):
            if p.cat(x.get("t", "?")) != "arr":
                return e.rv(st, x)
            out = []
            for s2, r in e.lv(st, x):
                out.append((s2, r if ispt(r) else e.read(s2, r)))
            return out
        e.EX["ref"] = e.EX["mem"] = rv

    def bound(self, st, v):
        """Upper bound from facts about sums."""
        best = None
        for w, k in st.store.get(LIN, NOLIN)[2]:
            if w[1] == v[1]:
                b = k - w[2] + v[2]
                best = b if best is None else min(best, b)
        return best

    def bychar(self, v):
        return all(c % 3 == 0 for _, c in v[1]) and not any(s == WB for s, _ in v[1])

    def buffer(self, st, r):
        if r[0] == "ref" and not r[2]:
            if r[1][0] == "g" and r[1] not in st.store:
                var = self.p.vars.get(r[1][1])
                ty = self.p.ty(var["t"]) if var else {}
                if ty.get("cat") == "arr" and (ty.get("n") or 0) > 64 and not var.get("const"):
                    st.store[r[1]] = BUF
                    self.setup(st, r[1], I(ty["n"]))
            if st.store.get(r[1]) == BUF:
                return pt(r[1], I(0))
        return r

    # -- blocks ------------------------------------------------------------
    def setup(self, st, root, room):
        st.store[("gst", "room", root)] = room
        st.store[("gst", "cont", root)] = ("gh", "chars", I(0), False)
        st.store[("gst", "end", root)] = I(0) if st.store[STORED] == FALSE else ("c", "made after the first entry")

    def mentions(self, st, root):
        def m(x):
            return isinstance(x, tuple) and (x == root or any(m(y) for y in x))
        return any(m(v) for r, v in st.store.items())

    def alloc(self, st, kind, room):
        i = 0
        while True:
            r = ("res", kind, i)
            if st.store.get(r, DONE) == DONE and not self.mentions(st, r):
                break
            i += 1
        st.store[r] = LIVE
        room = aff(room)
        self.setup(st, r, room if room is not None else unk("size"))
        return pt(r, I(0))

    def calloc(self, eng, st, node, obj, args, f):
        a, b = (aff(x) for x in args)
        n = None
        if a is not None and b is not None and not (a[1] and b[1]):
            n = aff_scale(a, b[2]) if not b[1] else aff_scale(b, a[2])
        return [(st, self.alloc(st, "block", n if n is not None else unk("size")))]

    def alive(self, st, node, v):
        if st.store.get(v[2]) in (LIVE, BUF):
            return True
        self.e.oblige("used-after", node, st, False, "a block is used although it has been released")
        return False

    def gone(self, st, root):
        st.store[root] = DONE
        for k in ("room", "cont", "end"):
            st.store.pop(("gst", k, root), None)
        st.store.pop(("rec", root), None)

    def free(self, eng, st, node, obj, args, f):
        v = args[0]
        if v in (NULL, I(0)):
            return [(st, VOID)]
        if not ispt(v):
            eng.oblige("used-after", node, st, None, "what is released is not followed")
            st.taint = st.taint or "free"
            return [(st, VOID)]
        ok = st.store.get(v[2]) == LIVE and v[3] == I(0)
        eng.oblige("released-twice", node, st, ok, "what is released is not a block in use")
        if not ok:
            return []
        self.gone(st, v[2])
        return [(st, VOID)]

    def realloc(self, eng, st, node, obj, args, f):
        v, n = args[0], aff(args[1])
        if v in (NULL, I(0)):
            return [(st, self.alloc(st, "block", args[1]))]
        if not ispt(v) or n is None:
            return [(st, eng.giveup(st, "realloc", node))]
        if not self.alive(st, node, v):
            return []
        q = self.fault(st.fork(), node, "memory cannot be had")
        st.store[("gst", "room", v[2])] = n
        return [(q, NULL), (st, v)]

    def fault(self, st, node, why):
        st.store[FAULT] = TRUE
        st.store[WHY] = ("c", why)
        st.note(self.e.where(node), why)
        return st

    def says(self, eng, st, node, obj, args, f):
        return [(st, sym(("said", eng.where(node))))]

    # -- contents ----------------------------------------------------------
    def cont(self, st, root):
        return st.store.get(("gst", "cont", root))

    def eq(self, st, a, b):
        d = aff_add(a, b, -1)
        if not d[1]:
            return d[2] == 0
        return self.e.lo(st, d) == 0 == self.e.hi(st, d)

    def byte(self, v, t):
        ty = self.p.ty(t or "char")
        if ty.get("bits", 8) == 8 and ty.get("signed", True) and v > 127:
            v -= 256
        return v

    def other(self, st, what, t):
        """A byte that is none of those with a meaning."""
        ty = self.p.ty(t or "char")
        u = self.e.uni_for(t) if t and ty.get("cat") == "char" else None
        if u is None:
            u = self.e.uni_for("char")
        n = ("byte", what)
        st.dom.pop(n, None)
        return self.e.finite(st, n, u, u.mask(lambda a: a not in (0, 9, 10)))

    def get(self, st, v, t, node):
        """Read one element: [(state, value)]."""
        e = self.e
        if not self.alive(st, node, v):
            return []
        root, off = v[2], v[3]
        c = self.cont(st, root)
        if c is None:
            return [(st, unk("content"))]
        if c[1] == "line":
            return self.getline(st, c, root, off, t, node)
        if c[1] == "chars":
            out = []
            d = aff_add(off, c[2], -1)
            for s2, b in e.cmp(st, "<", off, c[2], node):
                if b == TRUE:
                    x = ("elt?", e.where(node))
                    s2.dbm.forget(x)
                    s2.dbm.add(Z, x, -1)
                    out.append((s2, sym(x)))
                else:
                    for s3, b2 in e.cmp(s2, "==", off, c[2], node):
                        if b2 == TRUE and c[3]:
                            out.append((s3, I(0)))
                        else:
                            out.append((s3, unk("unset element")))
            return out
        if c[1] == "str":
            out = []
            d = aff_add(off, c[3], -1)
            for s2, b in e.cmp(st, "<", d, I(0), node):
                if b == TRUE:
                    out.append((s2, unk("content")))
                    continue
                for s3, b3 in e.cmp(s2, "<", d, c[4], node):
                    if b3 == TRUE:
                        out.append((s3, self.other(s3, e.where(node), t)))
                    else:
                        for s4, b4 in e.cmp(s3, "==", d, c[4], node):
                            out.append((s4, I(0) if b4 == TRUE else unk("content")))
            return out
        return [(st, unk("content"))]

    def getline(self, st, c, root, off, t, node):
        e = self.e
        form, T, E = c[2], c[3], c[4]
        w = self.e.where(node)
        if form == "tab" and self.bychar(off):
            b = off[2] % 3
            k = ("l", tuple((s, x // 3) for s, x in off[1]), (off[2] - b) // 3)
            out = []
            for s2, r in e.cmp(st, "<", k, sym(M), node):
                if r != TRUE:
                    for s3, r3 in e.cmp(s2, "==", k, sym(M), node):
                        out.append((s3, I(T) if r3 == TRUE and b == 0 else unk("behind the word")))
                    continue
                last = [(s2, FALSE)]
                if s2.store[INV] == TRUE:
                    last = e.cmp(s2, "==", k, sym(M, -1), node)
                for s3, r3 in last:
                    n = ("ch", "L", k)
                    if n not in s3.dom:
                        for s in s3.dom:
                            if isinstance(s, tuple) and s[:2] == ("ch", "L") and self.eq(s3, s[2], k):
                                n = s
                    if n not in s3.dom:
                        s3.dom[n] = self.letters.mask(lambda a: (a < 0) == (r3 == TRUE))
                    m = self.e.map1(s3, ("f", n, self.letters.ident), ("utf8", b, t), lambda a: self.byte((BADSEQ.get(a) or tuple(chr(a).encode("utf8")))[b], t))
                    out.append((s3, m))
            return out
        out = []
        stops = [(sym(WB), T, 1)] if form == "tab" else []
        end = aff_add(sym(WB), aff_add(sym(LD), I(1))) if form == "tab" else sym(WB)
        if form == "tab" and len(off[1]) == 1 and off[1][0][0] == WB or form == "none":
            pass
        work = [st]
        for at, val in ([(sym(WB), T)] if form == "tab" else []) + [(end, E)] + ([(aff_add(end, I(1)), 0)] if E == 10 else []):
            nxt = []
            for s in work:
                for s2, r in e.cmp(s, "<", off, at, node):
                    if r == TRUE:
                        out.append((s2, self.other(s2, w, t)))
                        continue
                    for s3, r3 in e.cmp(s2, "==", off, at, node):
                        if r3 == TRUE:
                            out.append((s3, I(val)))
                        else:
                            nxt.append(s3)
            work = nxt
        out += [(s, unk("behind the line")) for s in work]
        return out

    def put1(self, st, r, v):
        """Write one element."""
        e = self.e
        node = {"l": "?"}
        root, off = r[2], r[3]
        if st.store.get(root) not in (LIVE, BUF):
            return
        c = self.cont(st, root)
        key = ("gst", "cont", root)
        if c is None:
            st.taint = st.taint or "write"
            return
        self.overwritten(st, root, off)
        room = st.store.get(("gst", "room", root))
        if room is not None and room[0] == "l" and c[1] == "chars" and not e.prove_le(st, aff_add(off, room, -1), -1):
            e.oblige("room", self.node or node, st, False if not room[1] and self.bounded(st, off, room) else None, "writes behind the end of the room there is")
        if c[1] == "line":
            z = v in (I(0), FALSE)
            end = aff_add(sym(WB), aff_add(sym(LD), I(1))) if c[2] == "tab" else sym(WB)
            if z and c[2] == "tab" and self.eq(st, off, sym(WB)):
                st.store[key] = c[:3] + (0,) + c[4:]
            elif z and self.eq(st, off, end):
                st.store[key] = c[:4] + (0,)
            elif z and c[4] == 10 and self.eq(st, off, aff_add(end, I(1))):
                pass
            else:
                st.store[key] = ("gh", "bad", "line changed")
            return
        if c[1] == "chars":
            cnt = c[2]
            if v == I(0) and self.eq(st, off, cnt):
                st.store[key] = ("gh", "chars", cnt, True)
                return
            if self.eq(st, off, cnt):
                if v[0] == "f" and v[1][:2] == ("ch", "L"):
                    m = st.dom.get(v[1], v[2].uni.full)
                    same = all(x == a for i, (a, x) in enumerate(zip(v[2].uni.atoms, v[2].vals)) if m >> i & 1)
                    if same and self.eq(st, v[1][2], cnt):
                        st.store[key] = ("gh", "chars", aff_add(cnt, I(1)), False)
                        return
                    st.store[key] = ("gh", "bad", "a letter is decoded wrongly" if not same else "letters out of order")
                    return
                c1 = engine.const(v)
                if c1 is not None:
                    for s in st.dom:
                        if s[:2] == ("ch", "L") and self.eq(st, s[2], cnt) and st.dom[s] == self.letters.mask(lambda a: a == c1):
                            st.store[key] = ("gh", "chars", aff_add(cnt, I(1)), False)
                            return
                    st.store[key] = ("gh", "bad", "a letter is decoded wrongly")
                    return
                if v[0] != "unk":
                    st.store[key] = ("gh", "bad", "a letter is decoded wrongly")
                    return
            elif v[0] == "f" and v[1][:2] == ("ch", "L"):
                st.store[key] = ("gh", "bad", "letters out of order")
                return
        elif c[1] == "str" and v == I(0) and self.eq(st, off, aff_add(c[3], c[4])):
            return
        elif c[1] == "cut" and v == I(0):
            at, n = c[3], c[4]
            if self.eq(st, off, aff_add(at, n)):
                st.store[key] = ("gh", "str", c[2], at, n)
                return
            if e.prove_le(st, aff_add(at, off, -1)) and e.prove_le(st, aff_add(off, aff_add(at, n), -1), -1):
                st.store[key] = ("gh", "str", c[2] if c[2].startswith("part of") else "part of " + c[2], at, aff_add(off, at, -1))
                return
        elif c[1] == "bad":
            return
        st.store[key] = ("gh", "lost", "content not followed")

    node = None

    def bounded(self, st, off, room):
        return True

    def overwritten(self, st, root, off):
        k = ("gst", "end", root)
        end = st.store.get(k)
        if end is not None and end[0] == "l" and end != I(0) and not self.e.prove_le(st, aff_add(end, off, -1)):
            st.store[k] = ("c", "the data of an earlier entry is overwritten")

    def textat(self, st, v, node=None):
        """(what, length) of the text a pointer points to."""
        if not ispt(v):
            return None
        c = self.cont(st, v[2])
        off = v[3]
        if c is not None and c[1] == "cut" and node is not None and self.eq(st, off, c[3]):
            self.e.oblige("place", node, st, False, "a text is read whose end is not marked: " + c[2])
        if c is None:
            return None
        if c[1] == "line":
            form, T, E = c[2:5]
            nl = 1 if E == 10 else 0
            if form == "none":
                return ("X", sym(WB, nl)) if off == I(0) else None
            if self.eq(st, off, sym(WB, 1)):
                return ("D" if not nl else "D+newline", sym(LD, nl))
            if off == I(0):
                return ("W", sym(WB)) if T == 0 else ("L", aff_add(sym(WB), sym(LD, 1 + nl)))
            if self.eq(st, off, sym(WB)) and T == 9:
                return ("TAB+D", sym(LD, 1 + nl))
            d = aff_add(off, sym(WB, 1), -1)
            if not d[1] and d[2] > 0:
                return ("part of D", aff_add(sym(LD, nl), d, -1))
            return None
        if c[1] == "str" and self.eq(st, off, c[3]):
            return c[2], c[4]
        return None

    def strlen(self, eng, st, node, obj, args, f):
        v = args[0]
        if ispt(v) and not self.alive(st, node, v):
            return []
        t = self.textat(st, v, node)
        if t is None:
            return [(st, eng.giveup(st, "length of a text", node))]
        return [(st, t[1])]

    def strchr(self, eng, st, node, obj, args, f):
        v, c = args[0], engine.const(args[1])
        if ispt(v) and not self.alive(st, node, v):
            return []
        k = self.cont(st, v[2]) if ispt(v) else None
        if k is not None and k[1] == "line" and v[3] == I(0) and c in (9, 10):
            if c == 9:
                return [(st, pt(v[2], sym(WB)) if k[2] == "tab" and k[3] == 9 else NULL)]
            if k[2] == "none" or k[3] == 9:
                end = aff_add(sym(WB), sym(LD, 1)) if k[2] == "tab" else sym(WB)
                return [(st, pt(v[2], end) if k[4] == 10 else NULL)]
        if k is not None and k[1] == "line" and c == 10 and self.eq(st, v[3], sym(WB, 1)):
            return [(st, pt(v[2], aff_add(sym(WB), sym(LD, 1))) if k[4] == 10 else NULL)]
        if k is not None and k[1] == "str" and k[2] == "D" and self.eq(st, v[3], k[3]) and c in (9, 10):
            return [(st, NULL)]
        return [(st, eng.giveup(st, "strchr", node))]

    def strcspn(self, eng, st, node, obj, args, f):
        v, c = args[0], text(args[1])
        if ispt(v) and not self.alive(st, node, v):
            return []
        k = self.cont(st, v[2]) if ispt(v) else None
        t = self.textat(st, v, node)
        if k is not None and k[1] == "line" and t is not None and c and set(c) <= {"\n", "\t", "\r"}:
            if "\t" in c and t[0] == "L":
                return [(st, sym(WB))]
            if "\n" in c and k[4] == 10 and t[0] in ("L", "X", "D+newline"):
                return [(st, aff_add(t[1], I(-1)))]
            return [(st, t[1])]
        return [(st, eng.giveup(st, "strcspn", node))]

    def copy(self, st, node, dst, what, n, span):
        """A text of length n arrives at dst, span bytes are written."""
        e = self.e
        if not self.alive(st, node, dst):
            return False
        room = st.store.get(("gst", "room", dst[2]))
        need = aff_add(dst[3], span)
        if room is None or room[0] != "l":
            e.oblige("room", node, st, None, "size of the room not followed")
        else:
            d = aff_add(need, room, -1)
            ok = e.prove_le(st, d)
            if not ok and self.bound(st, d) is None and room[1]:
                ok = None
            e.oblige("room", node, st, ok, "more is written than there is room for")
        self.overwritten(st, dst[2], dst[3])
        st.store[("gst", "cont", dst[2])] = ("gh", "str", what, dst[3], n)
        return True

    def strcpy(self, eng, st, node, obj, args, f):
        d, s = args[0], args[1]
        t = self.textat(st, s, node)
        if not ispt(d) or t is None:
            return self.lost(st, node, d, "strcpy")
        if not self.alive(st, node, s) or not self.copy(st, node, d, t[0], t[1], aff_add(t[1], I(1))):
            return []
        return [(st, d)]

    def strncpy(self, eng, st, node, obj, args, f):
        d, s, n = args[0], args[1], aff(args[2])
        t = self.textat(st, s)
        if not ispt(d) or t is None or n is None:
            return self.lost(st, node, d, "strncpy")
        if not self.alive(st, node, s):
            return []
        out = []
        for s2, b in eng.cmp(st, "<", t[1], n, node):
            if b == TRUE:
                if self.copy(s2, node, d, t[0], t[1], n):
                    out.append((s2, d))
            else:
                same = self.eq(s2, t[1], n)
                if self.copy(s2, node, d, t[0], n, n):
                    s2.store[("gst", "cont", d[2])] = ("gh", "cut", t[0] if same else "part of " + t[0], d[3], n)
                    out.append((s2, d))
        return out

    def memcpy(self, eng, st, node, obj, args, f):
        d, s, n = args[0], args[1], aff(args[2])
        if ispt(d) and ispt(s) and n is not None and self.alive(st, node, s):
            t = self.textat(st, s)
            end = st.store.get(("gst", "end", s[2]))
            if t is not None and self.eq(st, n, aff_add(t[1], I(1))):
                if not self.copy(st, node, d, t[0], t[1], n):
                    return []
                return [(st, d)]
            if t is not None and self.eq(st, n, t[1]):
                if not self.copy(st, node, d, t[0], t[1], n):
                    return []
                st.store[("gst", "cont", d[2])] = ("gh", "cut", t[0], d[3], n)
                return [(st, d)]
            if end is not None and end[0] == "l" and s[3] == I(0) == d[3] and eng.prove_le(st, aff_add(end, n, -1)):
                if not self.copy(st, node, d, "old", n, n):
                    return []
                st.store[("gst", "cont", d[2])] = self.cont(st, s[2])
                st.store[("gst", "end", d[2])] = end
                return [(st, d)]
        return self.lost(st, node, d, "memcpy")

    def memset(self, eng, st, node, obj, args, f):
        d, c = args[0], args[1]
        if ispt(d) and c == I(0) and d[3] == I(0):
            if not self.alive(st, node, d):
                return []
            self.overwritten(st, d[2], I(0))
            st.store[("gst", "cont", d[2])] = ("gh", "chars", I(0), True)
            return [(st, d)]
        return self.lost(st, node, d, "memset")

    def strdup(self, eng, st, node, obj, args, f):
        s = args[0]
        t = self.textat(st, s, node)
        if t is None:
            return [(st, eng.giveup(st, "strdup", node))]
        d = self.alloc(st, "block", aff_add(t[1], I(1)))
        self.copy(st, node, d, t[0], t[1], aff_add(t[1], I(1)))
        return [(st, d)]

    def lost(self, st, node, d, why):
        if d in (NULL, I(0)) and why != "fwrite":
            self.e.oblige("null-deref", node, st, False, "writes to memory that could not be had")
            return []
        if ispt(d):
            st.store[("gst", "cont", d[2])] = ("gh", "lost", why)
        self.e.giveup(st, why, node)
        st.taint = st.taint or why
        return [(st, d)]

    # -- files ---------------------------------------------------------------
    def fopen(self, eng, st, node, obj, args, f):
        path, mode = args[0], text(args[1])
        n = path[1][0][1][1] if path[0] == "s" and len(path[1]) == 1 and path[1][0][0] == "ext" and path[1][0][1][0] == "arg" else None
        if n is None or mode is None:
            eng.oblige("files", node, st, None, "file not followed")
            st.taint = st.taint or "fopen"
        role = "in" if mode and mode[0] == "r" and "+" not in mode else "out" if mode and mode[0] == "w" else "other"
        q = self.fault(st.fork(), node, "the %s cannot be opened" % ("input" if role == "in" else "output"))
        if n is not None:
            eng.oblige("files", node, st, (role, n) in (("in", 1), ("out", 2)), "argument %s is opened as \"%s\"" % (n, mode))
        i = 0
        while ("res", "file", i) in st.store:
            i += 1
        r = ("res", "file", i)
        st.store[r] = LIVE
        st.store[("gst", "role", r)] = ("c", role)
        st.note(eng.where(node), "file is opened")
        return [(q, NULL), (st, ("ref", r, ()))]

    def role(self, st, node, v):
        """Which file is it, if it is open?"""
        if v[0] == "ref" and v[1][:2] == ("res", "file"):
            if not self.live(st, node, v):
                return None
            return st.store[("gst", "role", v[1])][1]
        if v in (NULL, I(0)):
            self.e.oblige("null-handle", node, st, False, "a file that could not be opened is used")
            return None
        return "other"

    def fclose(self, eng, st, node, obj, args, f):
        v = args[0]
        r = self.role(st, node, v)
        if r is None:
            return []
        if v[0] == "ref" and v[1][0] == "res":
            st.store[v[1]] = DONE
        if r == "out":
            q = self.fault(st.fork(), node, "the output cannot be written completely")
            st.store[CLOSED] = TRUE
            return [(q, I(-1)), (st, I(0))]
        return [(st, I(0))]

    def asks(self, st, node, v, what):
        r = self.role(st, node, v)
        if r is None:
            return []
        if r != "in":
            return self.says(self.e, st, node, None, [], None)
        return [(st, I(1) if st.store[what] == TRUE else I(0))]

    def fgets(self, eng, st, node, obj, args, f):
        buf, n, file = args[0], aff(args[1]), args[2]
        r = self.role(st, node, file)
        if r is None:
            return []
        if r != "in" or not ispt(buf) or n is None:
            return self.lost(st, node, buf, "fgets")
        if not self.alive(st, node, buf):
            return []
        eng.oblige("lines", node, st, st.store[LINE] != ("c", "read"), "a line of the input has not become an entry when the next one is read")
        room = st.store.get(("gst", "room", buf[2]))
        eng.oblige("room", node, st, eng.prove_le(st, aff_add(aff_add(n, buf[3]), room, -1)) if room is not None and room[0] == "l" else None, "more is read than there is room for")
        eng.oblige("word", node, st, eng.prove_le(st, aff_add(I(MAXLINE + 1), n, -1)), "lines of %d bytes are not read whole" % MAXLINE)
        out = []
        ended = st.store[EOFF] == TRUE
        if st.store[ANY] == TRUE:
            q = st.fork()
            q.store[EOFF] = TRUE
            q.store[LINE] = ("c", "none")
            q.note(eng.where(node), "end of the input")
            out.append((q, NULL))
        if ended:
            return out
        q = self.fault(st.fork(), node, "the input cannot be read")
        q.store[ERR] = TRUE
        q.store[LINE] = ("c", "none")
        out.append((q, NULL))
        self.newline(st)
        st.store[LINE] = ("c", "read")
        st.store[ANY] = TRUE
        key = ("gst", "cont", buf[2])
        for what, form, E, inv in (("a line", "tab", 10, False), ("a last line without newline", "tab", 0, False),
                                   ("a line without a tab", "none", 10, False), ("a line with a word that is no text", "tab", 10, True)):
            q = st.fork()
            q.note(eng.where(node), what)
            q.store[key] = ("gh", "line", form, 9 if form == "tab" else 0, E)
            if form == "none" or inv:
                self.fault(q, node, what)
            q.store[INV] = TRUE if inv else FALSE
            if E == 0:
                q.store[EOFF] = TRUE
            d = q.dbm
            for s, lo, hi in ((M, 1, (MAXLINE - 2) // 3), (WB, 3 if form == "tab" else 0, MAXLINE - 2), (LD, 0, MAXLINE - 5)):
                d.add(s, Z, hi)
                d.add(Z, s, -lo)
            eng.assume_le(q, aff_add(sym(WB), sym(LD)), MAXLINE - 2)
            out.append((q, buf))
        return out

    def newline(self, st):
        """What is known of the line before becomes what is known of an old line."""
        e = self.e
        for r, v in list(st.store.items()):
            if r[:2] == ("gst", "cont"):
                if v[1] in ("str", "cut") and not v[2].startswith("old"):
                    st.store[r] = v[:2] + ("old",) + v[3:]
                elif v[1] in ("chars", "line", "bad"):
                    st.store[r] = ("gh", "chars", I(0), False)
        for s in [s for s in st.dom if s[:2] == ("ch", "L")]:
            del st.dom[s]
        have = e.symsin(st)
        ren = {}
        for s in (M, WB, LD):
            i = 0
            while ("was", i) + s in have:
                i += 1
            ren[s] = ("was", i) + s
        e.rename(st, ren)
        st.store[LIN] = NOLIN

    def addrange(self, eng, st, node, obj, args, f):
        if not self.live(st, node, args[0]):
            return []
        lo, hi = engine.const(args[1]), engine.const(args[2])
        k = ("gst", "range", args[0][1])
        if lo is None or hi is None:
            st.taint = st.taint or "range of letters"
        else:
            st.store[k] = ("c", st.store.get(k, ("c", ()))[1] + ((lo, hi),))
        return [(st, I(0))]

    def trie_new(self, eng, st, node, obj, args, f):
        if not self.live(st, node, args[0]):
            return []
        s2, v = self.make(st, node, "trie")[1]
        s2.store[("gst", "range", v[1])] = s2.store.get(("gst", "range", args[0][1]), ("c", ()))
        return [(s2, v)]

    def release(self, st, node, v, kind):
        if not self.live(st, node, v, "released-twice"):
            return []
        if v[0] == "ref":
            if v[1][1] != kind:
                self.e.oblige("released-twice", node, st, False, "%s released as %s" % (v[1][1], kind))
                return []
            st.store[v[1]] = DONE
        return [(st, VOID)]

    def store(self, eng, st, node, obj, args, f):
        t, w, d = args[0], args[1], args[2]
        if not self.live(st, node, t):
            return []
        rng = st.store.get(("gst", "range", t[1]), ("c", ()))[1] if t[0] == "ref" else ()
        miss = [a for a in THAI if not any(lo <= a <= hi for lo, hi in rng)]
        eng.oblige("word", node, st, not miss, "words with U+%04X cannot be stored" % (miss[0] if miss else 0))
        q = self.fault(st.fork(), node, "an entry cannot be stored")
        line = st.store[LINE] == ("c", "read") and st.store[FAULT] == FALSE
        if line:
            c = self.cont(st, w[2]) if ispt(w) else None
            if ispt(w) and not self.alive(st, node, w):
                return []
            if c is None or c[1] == "lost" or w[3] != I(0) and c[1] == "chars":
                eng.oblige("word", node, st, False if c is not None and c[1] == "chars" else None, "what is stored is not the word of the line")
            elif c[1] == "bad":
                eng.oblige("word", node, st, False, "what is stored is not the word of the line: " + c[2])
            elif c[1] == "chars":
                ok = self.eq(st, c[2], sym(M))
                eng.oblige("word", node, st, ok and c[3], "what is stored is not the whole word of the line" if not ok else "the end of the word is not marked")
            else:
                eng.oblige("word", node, st, None, "word not followed")
            x = aff(d)
            good, why = [], "the entry does not name the place of its data"
            for r, v in list(st.store.items()):
                if r[:2] != ("gst", "cont"):
                    continue
                k = ("gst", "end", r[2])
                end = st.store.get(k)
                if x is None:
                    continue
                if v[1] == "str" and v[2] == "D" and self.eq(st, v[3], x) and end is not None and end[0] == "l":
                    good.append(r[2])
                    st.store[k] = aff_add(aff_add(v[3], v[4]), I(1))
                else:
                    if v[1] in ("str", "cut") and self.eq(st, v[3], x) and v[2] != "old":
                        why = "the data of the entry is not complete: %s%s" % (v[2], ", end not marked" if v[1] == "cut" else "")
                    if end is not None and end[0] == "l":
                        st.store[k] = ("c", "the data of an entry is elsewhere")
                    if end is not None and end[0] == "c" and "overwritten" in end[1] and v[1] == "str" and v[2] == "D" and self.eq(st, v[3], x) and not good:
                        why = end[1]
            lostany = any(v[1] == "lost" for r, v in st.store.items() if r[:2] == ("gst", "cont"))
            eng.oblige("place", node, st, None if x is None or not good and lostany else bool(good), why)
        st.store[STORED] = TRUE
        st.store[LINE] = ("c", "stored")
        fail = FALSE if self.p.cat(f["rt"]) == "bool" else I(0)
        return [(q, fail), (st, TRUE if fail == FALSE else I(1))]

    # -- writing ---------------------------------------------------------------
    def trie_fwrite(self, eng, st, node, obj, args, f):
        if not self.live(st, node, args[0]):
            return []
        r = self.role(st, node, args[1])
        if r is None:
            return []
        q = self.fault(st.fork(), node, "the words cannot be written")
        if r == "out":
            self.log(st, ("trie",))
        return [(q, I(-1)), (st, I(0))]

    def fwrite(self, eng, st, node, obj, args, f):
        buf, size, cnt, file = args[0], aff(args[1]), aff(args[2]), args[3]
        r = self.role(st, node, file)
        if r is None:
            return []
        if r != "out":
            return self.says(eng, st, node, obj, args, f)
        if size is None or cnt is None or size[1] and cnt[1]:
            return self.lost(st, node, NULL, "fwrite")
        total = aff_scale(size, cnt[2]) if not cnt[1] else aff_scale(cnt, size[2])
        q = self.fault(st.fork(), node, "writing falls short")
        got = I(0)
        if cnt != I(1):
            x = ("put", eng.where(node))
            q.dbm.forget(x)
            q.dbm.add(Z, x, 0)
            got = sym(x)
            q2 = q.fork()
            q = eng.assume_le(q, aff_add(got, cnt, -1), -1)
            if len(cnt[1]) > 1:
                q, got = q2, aff_add(cnt, I(-1))
        out = [(q, got)] if q is not None else []
        v = buf
        if ispt(v):
            if not self.alive(st, node, v):
                return out
            end = st.store.get(("gst", "end", v[2]))
            if end is None:
                return out + self.lost(st, node, v, "fwrite")
            self.log(st, ("block", total))
            if end[0] != "l":
                eng.oblige("layout", node, st, False, "what is written does not hold the data of every entry (%s)" % end[1])
            else:
                ok = v[3] == I(0) and eng.prove_le(st, aff_add(end, total, -1))
                eng.oblige("layout", node, st, ok, "not all of the data is written")
            room = st.store.get(("gst", "room", v[2]))
            if room is not None and room[0] == "l" and not room[1]:
                pass
        elif v[0] == "ref":
            r2, lo = v, 0
            if v[2] and isinstance(v[2][-1], tuple) and v[2][-1][0] == "i":
                r2, lo = ("ref", v[1], v[2][:-1]), v[2][-1][1]
            x = eng.read(st, r2)
            if x[0] == "A" and not total[1]:
                if lo + total[2] > len(x[1]):
                    eng.oblige("room", node, st, False, "more is written than there is")
                for y in x[1][lo:lo + total[2]]:
                    self.log(st, ("wbyte",) + self.unshift(y))
            elif x[0] == "l" and not total[1]:
                for i in range(total[2]):
                    self.log(st, ("wbyte", x, 8 * i))
            else:
                return out + self.lost(st, node, NULL, "fwrite")
        else:
            return out + self.lost(st, node, NULL, "fwrite")
        return out + [(st, cnt)]

    def fputc(self, eng, st, node, obj, args, f):
        r = self.role(st, node, args[1])
        if r is None:
            return []
        if r != "out":
            return self.says(eng, st, node, obj, args, f)
        q = self.fault(st.fork(), node, "writing fails")
        self.log(st, ("wbyte",) + self.unshift(args[0]))
        x = ("putc", eng.where(node))
        st.dbm.forget(x)
        st.dbm.add(Z, x, 0)
        return [(q, I(-1)), (st, sym(x))]

    def unshift(self, v, by=0):
        """(number, shift) if v is a byte of a number."""
        if v[0] != "l":
            return None, None
        if len(v[1]) == 1 and v[1][0][1] == 1 and v[2] == 0:
            s = v[1][0][0]
            if isinstance(s, tuple) and s[0] == "op" and not s[3][1]:
                if s[1] == "&":
                    n, b = self.unshift(s[2], by)
                    # bit 31 of a length is never set
                    if n is None or not 255 & ~(s[3][2] >> by) & (0x7fffffff >> by):
                        return n, b
                    return ("part",), b
                if s[1] == ">>":
                    return self.unshift(s[2], by + s[3][2])
                if s[1] == "/" and s[3][2] in (1 << 8, 1 << 16, 1 << 24):
                    return self.unshift(s[2], by + s[3][2].bit_length() - 1)
                if s[1] == "%" and s[3][2] == 256:
                    return self.unshift(s[2], by)
            if isinstance(s, tuple) and s[0] == "trunc" and s[1] == 8:
                return self.unshift(s[2], by)
            if isinstance(s, tuple) and s[0] == "op":
                return None, None
        return v, by

    # -- the end -----------------------------------------------------------------
    ends = 0

    def final(self, st, v, node):
        e = self.e
        self.ends += 1
        node = {"l": node.get("l", "?"), "k": "return"}
        c = engine.const(v)
        if c is None:
            e.oblige("status", node, st, None, "exit status not followed")
            return
        fault = st.store[FAULT] == TRUE
        if int(c) & 255:
            e.oblige("status", node, st, fault or st.store[ARGC] == FALSE, "failure is reported although nothing has gone wrong")
            return
        log = st.store[LOG][1]
        kinds = {t[0] for t in log}
        if st.store[ARGC] == FALSE:
            bad = "success is reported although not two files were given"
        elif fault:
            bad = "success is reported although something has gone wrong: " + st.store[WHY][1]
        elif st.store[EOFF] != TRUE:
            bad = "success is reported before the input has been read to its end"
        elif st.store[LINE] == ("c", "read"):
            bad = "success is reported although a line of the input has not become an entry"
        elif "trie" not in kinds or "block" not in kinds:
            bad = "success is reported although %s not been written" % ("the words have" if "trie" not in kinds else "the data has")
        elif st.store[CLOSED] != TRUE:
            bad = "success is reported before it is known that everything has been written"
        else:
            bad = None
        e.oblige("status", node, st, not bad, bad or "")
        if not bad:
            self.layout(st, node, log)

    def layout(self, st, node, log):
        e = self.e
        want = self.format
        if want is None:
            e.oblige("layout", node, st, None, "what is read is not followed")
            return
        bad = None
        blk = [t for t in log if t[0] == "block"]
        got = ["trie" if t[0] == "trie" else "data" if t[0] == "block" else ("byte", t[2]) for t in log]
        if any(t[0] == "wbyte" and t[1] is None for t in log):
            e.oblige("layout", node, st, None, "length written not followed")
            return
        if any(t[0] == "wbyte" and t[1] == ("part",) for t in log):
            bad = "not all bits of the length are written"
        elif got != list(want):
            bad = "what is written is laid out as %s where %s is read" % (self.show(got), self.show(want))
        elif any(t[0] == "wbyte" and not self.eq(st, t[1], blk[0][1]) for t in log):
            bad = "the length written is not that of the data"
        e.oblige("layout", node, st, not bad, bad or "")

    def show(self, l):
        return ", ".join(x if isinstance(x, str) else "bits %d-%d of the length" % (x[1], x[1] + 7) for x in l)


def formats(p, rep):
    """The file formats that the reader accepts."""
    w = DWorld(p)
    closed, opened, fo = states(w, p, rep)
    out = set()
    for st in opened:
        err, parts = layout_read(reading(st))
        if err:
            continue
        blk = [x[1] for x in parts if x[0] == "block"]
        if len(blk) != 1:
            continue
        out.add(tuple("trie" if x[0] == "trie" else "data" if x[0] == "block" else ("byte", blk[0].get(x[1], -1)) for x in parts))
    return out


def decide(p, rep, cid):
    units = [u for u in prog.sources() if u.endswith(".c")]
    if not units:
        raise AnalysisBroken("no C sources")
    q = prog.Program(units)
    mains = [f for f in q.fns.values() if f["name"] == "main"]
    if len(mains) != 1:
        raise AnalysisBroken("main of the dictionary builder not found")
    f = mains[0]
    fm = formats(p, rep) if cid == "C17" else ()
    w = BWorld(q)
    w.format = next(iter(fm)) if len(fm) == 1 else None
    for k in (TRUE, FALSE):
        st = St()
        st.store.update({LOG: ("c", ()), FAULT: FALSE, WHY: ("c", ""), LINE: ("c", "none"), EOFF: FALSE, ERR: FALSE, ANY: FALSE,
                         INV: FALSE, CLOSED: FALSE, STORED: FALSE, ARGC: k, LIN: NOLIN})
        args = [I(3), ("gh", "argv")]
        if k == FALSE:
            n = ("par", "argc")
            st.dbm.add(Z, n, 0)
            args[0] = sym(n)
            sts = [s for s, b in w.e.cmp(st, "==", args[0], I(3), f) if b == FALSE]
        else:
            sts = [st]
        for s in sts:
            try:
                for s2, v in w.e.invoke(s, f, args[:len(f["ps"])], None, {"l": f["l"], "k": "call"}):
                    w.final(s2, v if v != VOID else I(0), f)
            except NoFixpoint as x:
                rep.unresolved("builder", str(x))
    kinds = K16 if cid == "C16" else K17
    for k, (n, bad, un) in w.e.oblig.items():
        if k[0] in kinds and not bad and not un:
            rep.ok()
            rep.count(k[0])
    for k, x in w.e.findings.items():
        if k[0] in kinds:
            rep.violation("%s/%s" % (k[0], x["fn"]), "%s (%s)" % (x["loc"], x["fn"]), x["msg"], list(x["trace"])[-10:])
    for k, m in w.e.unresolved.items():
        if k[0] in K16 + K17 and k[0] not in kinds:
            continue
        rep.unresolved("/".join(map(str, k)), m)
    rep.count("endings", w.ends)
    if not rep.viol and not rep.unres:
        rep.floor("endings", 8)
        rep.floor(kinds[0], 1)
        rep.floor(kinds[1], 1)


RULES = {
    "C16": "main of the builder is interpreted on inputs of any number of lines with every library call succeeding or failing: exit status 0 "
           "requires that no call failed, that every line read was a word, a tab and data and has been stored, that the input was read to its "
           "end and that words and data were written and the file closed; any other exit status requires that something went wrong",
    "C17": "the same interpretation follows the letters of the current word, its data and the blocks they are copied to: what is stored is "
           "the whole word decoded letter by letter, with the place of its complete, terminated data, which nothing overwrites later; "
           "all data is written, with its length laid out byte by byte as the reader of dictionaries, analysed separately, puts it together",
}


def check(pid):
    rep = Report(pid, RULES[pid])
    p = prog.Program()
    try:
        decide(p, rep, pid)
    except NoFixpoint as x:
        rep.unresolved("builder", str(x))
    return rep
