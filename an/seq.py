"""Sequences of unknown length and the strings or lists built from them.

A list handed to the analysed code is ('gl', X): only its name X is known.
Iterators into it are relative to the furthest place reached so far, the front:
('git', X, 0) is the front, ('git', X, -1) the element before it.  Elements are
named the same way, ("@", X, k).  When the front moves on, the names of all
elements shift by one, and every variable that is built up in a loop (a string
or a list) receives a mark ("#m", X).  What such a variable holds at the head of
a loop is a state of a finite automaton; the pieces appended on the way from one
loop head to another are its transitions.  The possible results of a function
are therefore a regular language over constant characters, texts of elements
and marks; `check` compares it with a monitor.
"""
from dom import I, sym, Z
from engine import St, unk, const, strconst

VOID = ("c", None)


def name(X, k=0):
    return ("@", X, k)


class Seq:
    def __init__(self, eng, elem):
        self.eng = eng
        self.elem = elem           # (eng, st, type, name) -> [(st, value)]
        self.trans = {}            # automaton: state -> set of piece tuples reaching it
        self.accs = None
        self.classkey = None       # (st) -> what else loop heads are told apart by
        self.factfn = None         # (st, X) -> what a mark tells of the front element
        self.isdead = None         # (st, X) -> is the front of X known to be erased?
        self.sizes = False         # remember sizes over loop heads?
        self.onreturn = None       # (st, depth) before the variables of a call are dropped
        self.uids = {}
        self.uid = 0
        eng.seq = self
        eng.PEEL = 0
        eng.val_join = self.join

    # -- which variables are built up in loops ------------------------------
    def accvars(self):
        if self.accs is None:
            self.accs = set()
            for f in self.eng.p.fns.values():
                if f.get("b"):
                    decl = {tuple(p["d"]) if isinstance(p["d"], list) else p["d"]: 0 for p in f["ps"]}
                    self.scan(f["b"], 0, decl)
        return self.accs

    def scan(self, x, depth, decl):
        if isinstance(x, list):
            for y in x:
                self.scan(y, depth, decl)
            return
        if not isinstance(x, dict):
            return
        k = x.get("k")
        if k in ("while", "for", "do", "rfor"):
            if x.get("init"):
                self.scan(x["init"], depth, decl)
            if k == "rfor":
                self.scan(x["r"], depth, decl)
                decl[x["v"]["d"]] = depth + 1
                self.scan(x["b"], depth + 1, decl)
                return
            for y in ("cv", "c", "inc", "b"):
                if x.get(y):
                    self.scan(x[y], depth + 1, decl)
            return
        if k == "decl":
            for v in x["v"]:
                if isinstance(v, dict) and "d" in v:
                    decl[v["d"]] = depth
                    self.scan(v.get("init"), depth, decl)
            return
        if k == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
            self.touch(x["a"], depth, decl)
        if k == "mcall" and not (x.get("f") or {}).get("const"):
            self.touch(x.get("o"), depth, decl)
        if k in ("call", "mcall", "ctor"):
            pt = (x.get("f") or {}).get("pt") or []
            for i, a in enumerate(x.get("a") or ()):
                if i < len(pt) and pt[i].startswith("&") and not pt[i].startswith("&const") and not pt[i].startswith("&&"):
                    self.touch(a, depth, decl)
        for key, y in x.items():
            if key not in ("f", "l") and isinstance(y, (dict, list)):
                self.scan(y, depth, decl)

    def touch(self, x, depth, decl):
        while isinstance(x, dict) and x.get("k") in ("cast", "mem"):
            x = x.get("e") if x["k"] == "cast" else x.get("b")
        if isinstance(x, dict) and x.get("k") == "this":
            return
        if isinstance(x, dict) and x.get("k") == "ref" and "d" in x:
            if decl.get(x["d"], 0) < depth:
                self.accs.add(x["d"])
        if isinstance(x, dict) and x.get("k") in ("mcall", "call") and x.get("o"):
            self.touch(x["o"], depth, decl)

    # -- state of one list ---------------------------------------------------
    def state(self, st, X):
        v = st.store.get(("gst", "seq", X))
        return v[1] if v is not None else (0, "?")

    def setstate(self, st, X, adv, end):
        st.store[("gst", "seq", X)] = ("c", (adv, end))

    def atend(self, st, X):
        """[(st, at the end?)] for the front."""
        adv, end = self.state(st, X)
        if end != "?":
            return [(st, end == "y")]
        q = st.fork()
        self.setstate(st, X, adv, "n")
        self.setstate(q, X, adv, "y")
        self.mark(q, ("#end", X))
        return [(q, True), (st, False)]

    def roots(self, st):
        """Variables of the current call that are built up in a loop."""
        d = self.eng.depth
        acc = self.accvars()
        out = []
        for r, v in st.store.items():
            if r[0] == "v" and r[1] == d and r[2] in acc:
                n = 0
                path = ()
                while v[0] == "ref" and n < 5:
                    r, path = v[1], v[2]
                    v = self.eng.read(st, v)
                    n += 1
                if (r, path) not in out:
                    out.append((r, path))
            elif r[0] == "log":
                out.append((r, ()))
        return out

    def mark(self, st, tok):
        for r, path in self.roots(st):
            v = self.eng.read(st, ("ref", r, path))
            self.eng.write(st, ("ref", r, path), self.marked(v, tok))

    def marked(self, v, tok):
        k = v[0]
        if k == "s":
            return ("s", v[1] + (("ext", tok),))
        if k == "A":
            return ("T", tuple(("e", x) for x in v[1]) + (tok,))
        if k == "T":
            return ("T", v[1] + (tok,))
        if k == "r":
            return ("r", v[1], tuple(self.marked(x, tok) for x in v[2]))
        return v

    # -- moving on -------------------------------------------------------------
    def sub(self, x, X, f, memo=None):
        if not isinstance(x, (tuple, frozenset)):
            return x
        if isinstance(x, frozenset):
            return frozenset(self.sub(y, X, f) for y in x)
        if len(x) == 3 and x[0] == "@" and x[1] == X and isinstance(x[2], int):
            return ("@", X, f(x[2]))
        if len(x) == 3 and x[0] == "git" and x[1] == X and isinstance(x[2], int):
            k = f(x[2])
            return ("git", X, k if not isinstance(k, int) or k > -3 else "o")
        return tuple(self.sub(y, X, f) for y in x)

    def seal(self, st, v, X):
        """Names of elements in a built-up value are fixed relative to the mark
        that follows; characters are replaced by what is known of them."""
        k = v[0]
        if k == "s":
            return ("s", tuple(self.sealpiece(st, p, X) for p in v[1]))
        if k == "r":
            return ("r", v[1], tuple(self.seal(st, x, X) for x in v[2]))
        if k == "T":
            return self.sub(v, X, lambda k: "s%d" % k)
        if k == "A":
            return self.sub(v, X, lambda k: "s%d" % k)
        return v

    def sealpiece(self, st, p, X):
        if p[0] == "chv" and p[1][0] == "f" or p[0] == "f":
            fv = p[1] if p[0] == "chv" else p
            vals = fv[2].image(st.dom.get(fv[1], fv[2].uni.full))
            vals = frozenset((x,) if p[0] == "chv" else tuple(x) for x in vals)
            p = ("ext", ("#cc", vals, fv[1], fv[2] is fv[2].uni.ident[2] if isinstance(fv[2].uni.ident, tuple) else fv[2] is fv[2].uni.ident))
        return self.sub(p, X, lambda k: "s%d" % k)

    def shift(self, st, X, fact=None, keep=False, f=lambda k: k - 1):
        for r, path in self.roots(st):
            ref = ("ref", r, path)
            self.eng.write(st, ref, self.seal(st, self.eng.read(st, ref), X))
        kids = set()
        for r, v in st.store.items():
            if r[:2] == ("gst", "seq") and r[2] != X:
                ks = set()
                self.mentions(r[2], X, ks)
                if 0 in ks:
                    kids.add((self.sub(r[2], X, lambda k: "s%d" % k),) + v[1])
        self.mark(st, ("#m", X, fact, frozenset(kids)))
        self.renumber(st, X, f, keep)

    def renumber(self, st, X, f, keep=False):
        """Names of the elements of X change."""
        g = self.gone
        for s in list(st.dom):
            if g(s, X):
                del st.dom[s]
        for s in st.dbm.syms():
            if g(s, X):
                st.dbm.forget(s)
        st.store = {self.sub(r, X, f): self.sub(v, X, f) for r, v in st.store.items()}
        for r in list(st.store):
            if r[0] in ("ge", "gst") and g(r, X):
                if r[0] == "gst":
                    del st.store[r]
                else:
                    st.store[r] = unk("erased element")
        st.dom = {self.sub(s, X, f): m for s, m in st.dom.items()}
        ren = {}
        for s in st.dbm.syms():
            n = self.sub(s, X, f)
            if n != s:
                ren[s] = n
        if ren:
            st.dbm.rename(ren)
        self.prune(st, X, keep)

    def gone(self, x, X):
        """Does x name an erased element of X?"""
        if isinstance(x, (tuple, frozenset)):
            if isinstance(x, tuple) and len(x) == 3 and x[0] == "@" and x[1] == X and x[2] == "g":
                return True
            return any(self.gone(y, X) for y in x)
        return False

    def mentions(self, x, X, out):
        if isinstance(x, (tuple, frozenset)):
            if isinstance(x, tuple) and len(x) == 3 and x[0] == "@" and x[1] == X and isinstance(x[2], int):
                out.add(x[2])
            for y in x:
                self.mentions(y, X, out)

    def prune(self, st, X, keep=False):
        live = {-1} if keep else set()
        weak = []
        for r, v in st.store.items():
            own = r[0] in ("ge", "gst")
            ks = set()
            self.mentions(r, X, ks)
            if own and ks:
                weak.append((r, ks))
                continue
            if r[0] == "t":
                if v[0] in ("ref", "git"):
                    weak.append((r, {None}))
                    continue
            self.mentions(v, X, live)
            if v[0] == "git" and v[1] == X and isinstance(v[2], int):
                live.add(v[2])
        for r, ks in weak:
            if None in ks:
                x = set()
                self.mentions(st.store[r], X, x)
                if st.store[r][0] == "git" and st.store[r][1] == X and isinstance(st.store[r][2], int):
                    x.add(st.store[r][2])
                if any(k < 0 for k in x):
                    del st.store[r]
            elif any(k < 0 and k not in live for k in ks):
                del st.store[r]
        dead = [s for s in st.dom if self.dead(s, X, live)]
        for s in dead:
            del st.dom[s]
        for s in st.dbm.syms():
            if self.dead(s, X, live):
                st.dbm.forget(s)

    def dead(self, s, X, live):
        ks = set()
        self.mentions(s, X, ks)
        return any(k < 0 and k not in live for k in ks)

    def fact(self, st, X):
        """What is known of the front element when it is left behind."""
        if self.factfn is not None:
            return self.factfn(st, X)
        r = ("ge", name(X))
        v = st.store.get(r)
        if v is not None and v[0] == "f":
            return frozenset(v[2].image(st.dom.get(v[1], v[2].uni.full)))
        return None

    def erase(self, st, e, v):
        """Element at iterator v is taken out of its container; iterators to it
        are dead ("g"), the names of the others stay."""
        X, k = v[1], v[2]
        self.log(st, ("er", X, k))
        if k == 0:
            out = []
            for s2, end in self.atend(st, X):
                self.eng.oblige("iterator-deref", e, s2, not end, "erases at the end of a container")
                if not end:
                    self.shift(s2, X, self.fact(s2, X), f=lambda k: "g" if k == 0 else k)
                    self.setstate(s2, X, 1, "?")
                    out.append((s2, ("git", X, 0)))
            return out
        f = lambda j: "g" if j == k else j + 1 if j < k else j
        self.renumber(st, X, f)
        return [(st, ("git", X, k + 1))]

    def behind(self, pieces):
        """All pieces a built-up value may be made of."""
        out, seen, work = set(), set(), list(pieces)
        while work:
            p = work.pop()
            if p[0] == "#st":
                if p[1] not in seen:
                    seen.add(p[1])
                    for ps in self.trans.get(p[1], ()):
                        work += ps
            else:
                out.add(p)
        return out

    def log(self, st, tok):
        r = ("log",)
        if r in st.store:
            st.store[r] = ("T", st.store[r][1] + (tok,))

    def alive(self, st, e, v):
        """An iterator to an erased element must not be used."""
        ok = v[0] != "git" or v[2] != "g" and not (self.isdead and self.isdead(st, v[1]))
        self.eng.oblige("iterator-dead", e, st, ok, "uses an iterator to an element that has been erased")
        return ok

    def advance(self, st, e, v, keep=False):
        X, k = v[1], v[2]
        if not self.alive(st, e, v):
            return []
        if k in ("b", "o"):
            return [(st, self.eng.giveup(st, "second pass over a list", e))]
        if k < 0:
            return [(st, ("git", X, k + 1))]
        out = []
        for s2, end in self.atend(st, X):
            self.eng.oblige("iterator-advance", e, s2, not end, "moves an iterator beyond the end of a list")
            if end:
                continue
            self.shift(s2, X, self.fact(s2, X), keep)
            self.setstate(s2, X, 1, "?")
            out.append((s2, ("git", X, 0)))
        return out

    def deref(self, st, v, e):
        X, k = v[1], v[2]
        if v[0] == "gend":
            self.eng.oblige("iterator-deref", e, st, False, "dereferences the end iterator")
            return []
        if k in ("b", "o"):
            return [(st, self.eng.giveup(st, "second pass over a list", e))]
        if not self.alive(st, e, v):
            return []
        sts = [st]
        if k == 0:
            sts = []
            for s2, end in self.atend(st, X):
                self.eng.oblige("iterator-deref", e, s2, not end, "dereferences an iterator that may be at the end of the list")
                if not end:
                    sts.append(s2)
        out = []
        root = ("ge", name(X, k))
        for s2 in sts:
            if root in s2.store:
                out.append((s2, ("ref", root, ())))
                continue
            for s3, val in self.elem(self.eng, s2, self.eltype(X), name(X, k)):
                s3.store[root] = val
                out.append((s3, ("ref", root, ())))
        return out

    def chars(self, st, v):
        """The characters of an unknown non-empty text as a list."""
        if v[0] == "s" and len(v[1]) == 1 and v[1][0][0] == "ext" and v[1][0][1][0] == "E":
            X = ("chars", v[1][0][1], "char")
            if ("gst", "seq", X) not in st.store:
                self.setstate(st, X, 0, "n")
            return ("gl", X)
        return None

    def eltype(self, X):
        return X[2]

    # -- operations --------------------------------------------------------------
    def compare(self, st, op, a, b, node):
        if op not in ("==", "!="):
            return None
        if a[0] == "gend":
            a, b = b, a
        eq = lambda s, r: (s, ("c", r if op == "==" else not r))
        if a[0] == "gend":
            return [eq(st, True)]
        if a[0] != "git" or a[1] != b[1]:
            return None
        if b[0] == "gend":
            if a[2] == 0:
                return [eq(s, r) for s, r in self.atend(st, a[1])]
            return [eq(st, False)]
        if b[0] == "git":
            if a[2] == b[2]:
                return [eq(st, True)]
            if 0 in (a[2], b[2]) or isinstance(a[2], int) and isinstance(b[2], int):
                return [eq(st, False)]
            return None
        return None

    def iter_method(self, st, e, m, o, v, args):
        eng = self.eng
        if m in ("operator*", "operator->"):
            return self.deref(st, v, e)
        if m == "operator++":
            if v[0] == "gend":
                eng.oblige("iterator-advance", e, st, False, "moves an iterator beyond the end of a list")
                return []
            out = []
            if v[2] == 0:
                eng.write(st, o, ("git", v[1], "+"))
            for s2, nv in self.advance(st, e, v, bool(args)):
                if nv[0] == "unk":
                    return [(s2, nv)]
                eng.write(s2, o, nv)
                if args:
                    out.append((s2, ("git", v[1], v[2] - 1 if v[2] == 0 else v[2])))
                else:
                    out.append((s2, o))
            return out
        if m == "operator--" and v[0] == "git" and isinstance(v[2], int) and v[2] > -3:
            nv = ("git", v[1], v[2] - 1)
            eng.write(st, o, nv)
            return [(st, v if args else o)]
        if m == "operator=":
            eng.write(st, o, eng.val(st, args[0]))
            return [(st, o)]
        if m in ("operator==", "operator!="):
            return eng.cmp(st, m[8:], v, eng.val(st, args[0]), e)
        return None

    def container(self, st, e, m, o, v, args, f):
        eng = self.eng
        if v[0] == "gl":
            X = v[1]
            if m in ("begin", "cbegin"):
                adv, end = self.state(st, X)
                return [(st, ("git", X, 0 if adv == 0 else "b"))]
            if m in ("end", "cend"):
                return [(st, ("gend", X))]
            if m in ("empty", "size"):
                adv, end = self.state(st, X)
                res = [(st, False)] if adv else self.atend(st, X)
                if m == "empty":
                    return [(s2, ("c", b)) for s2, b in res]
                out = []
                for s2, b in res:
                    if not b:
                        s2.dbm.add(Z, ("size", X), -1)
                        if self.sizes:
                            s2.store[("gst", "size", X)] = sym(("size", X))
                    out.append((s2, I(0) if b else sym(("size", X))))
                return out
            if m == "front":
                adv, end = self.state(st, X)
                if adv == 0:
                    return self.deref(st, ("git", X, 0), e)
            if m in ("push_back", "insert", "emplace_back", "push_front"):
                v = ("T", (("all", X),))
        if m == "operator=":
            eng.write(st, o, eng.val(st, args[0]))
            return [(st, o)]
        if m == "clear":
            eng.write(st, o, ("A", ()))
            return [(st, VOID)]
        if v[0] == "A":
            v = ("T", tuple(("e", x) for x in v[1]))
        if v[0] == "T":
            if m == "push_back":
                eng.write(st, o, ("T", v[1] + (("e", eng.val(st, args[0])),)))
                return [(st, VOID)]
            if m == "insert" and len(args) in (2, 3):
                at = eng.val(st, args[0])
                if at == ("tbegin", o) and len(args) == 2:
                    eng.write(st, o, ("T", (("e", eng.val(st, args[1])),) + v[1]))
                    return [(st, ("tbegin", o))]
                if at == ("tbegin", o) and v[1]:
                    eng.write(st, o, ("T", ()))
                    r = self.container(st, e, m, o, ("T", ()), [("tend", o)] + list(args[1:]), f)
                    if r is None:
                        eng.write(st, o, v)
                        return None
                    for s2, _ in r:
                        eng.write(s2, o, ("T", eng.read(s2, o)[1] + v[1]))
                    return [(s2, ("tbegin", o)) for s2, _ in r]
                if at == ("tend", o) or at[0] == "gend" and v[1][:1] == (("all", at[1]),) and len(v[1]) == 1 or at[0] == "it" and at[1] == o and at[2] == len(v[1]):
                    if len(args) == 2:
                        eng.write(st, o, ("T", v[1] + (("e", eng.val(st, args[1])),)))
                        return [(st, ("tend", o))]
                    b, c = eng.val(st, args[1]), eng.val(st, args[2])
                    if b[0] == "git" and c[0] == "gend" and b[1] == c[1] and b[2] in (0, "b") and (b[2] == "b" or self.state(st, b[1])[0] == 0):
                        eng.write(st, o, ("T", v[1] + (("all", b[1]),)))
                        return [(st, ("tend", o))]
                    if b[0] == "it" and c[0] == "it" and b[1] == c[1]:
                        src = eng.read(st, b[1])
                        if src[0] == "A":
                            eng.write(st, o, ("T", v[1] + tuple(("e", x) for x in src[1][b[2]:c[2]])))
                            return [(st, ("tend", o))]
                    if b[0] == "tbegin" and c[0] == "tend" and b[1] == c[1]:
                        src = eng.read(st, b[1])
                        if src[0] == "T":
                            eng.write(st, o, ("T", v[1] + src[1]))
                            return [(st, ("tend", o))]
            if m in ("end", "cend"):
                return [(st, ("tend", o))]
            if m in ("begin", "cbegin"):
                return [(st, ("tbegin", o))]
            if m in ("empty", "size"):
                if not v[1]:
                    return [(st, ("c", True) if m == "empty" else I(0))]
                if any(p[0] == "e" for p in v[1]):
                    if m == "empty":
                        return [(st, ("c", False))]
                sts = [p[1] for p in v[1] if p[0] == "#st"]
                if m == "size" and sts:
                    s = ("tsz", sts[0], sum(p[0] == "e" for p in v[1]))
                    st.dbm.add(Z, s, 0)
                    return [(st, sym(s))]
        return None

    # -- loops ---------------------------------------------------------------
    def rfor(self, st, ref, X, s, v, isref, o):
        """Range-for over an unknown list."""
        eng = self.eng
        vr = eng.vroot(v["d"])
        heads = {}
        adv, end = self.state(st, X)
        if adv:
            eng.giveup(st, "second pass over a list", s)
            o.n.append(st)
            return
        work = [(st, 0)]
        guard = 0
        while work:
            guard += 1
            if guard > 400:
                from engine import NoFixpoint
                raise NoFixpoint("range loop at %s does not stabilise" % eng.where(s))
            q, n = work.pop()
            body = []
            for s2, at in self.atend(q, X):
                if at:
                    o.n.append(s2)
                    continue
                for s3, r in self.deref(s2, ("git", X, 0), s):
                    s3.store[vr] = r if isref else eng.read(s3, r)
                    body.append(s3)
            r = eng.run(body, s["b"])
            o.r += r.r
            o.n += r.b
            for k, x in r.g.items():
                o.g.setdefault(k, []).extend(x)
            back = []
            for q2 in eng.merge(r.n + r.c):
                q2.store.pop(vr, None)
                back += [q3 for q3, _ in self.advance(q2, s, ("git", X, 0))]
            for q3 in self.joined(back, s):
                if n < eng.PEEL:
                    work.append((q3, n + 1))
                else:
                    h = eng.headjoin(heads, q3, s)
                    if h is not None:
                        work.append((h, 2))

    def headkey(self, st, key):
        """Key of a joined state; names the automaton states made by the join."""
        if self.classkey is not None:
            key = key + (self.classkey(st),)
        self.uid = self.uids.setdefault((tuple(self.eng.callstack), key), len(self.uids) + 1)
        return key

    def returned(self, pairs, fn):
        """Results of a call that differ only in what was built up are one."""
        return self.onejoin(pairs, "return " + fn["id"])

    def joined(self, states, s):
        return [q for q, _ in self.onejoin([(q, VOID) for q in states], "end of " + self.eng.where(s))]

    def onejoin(self, pairs, where):
        if len(pairs) < 2:
            return pairs
        heads = {}
        root = ("ret", self.eng.depth)
        node = {"l": where, "k": "return"}
        for st, v in pairs:
            st.store[root] = v
            self.eng.headjoin(heads, st, node)
        out = []
        for h in heads.values():
            v = h[0].store.pop(root)
            out.append((h[0], v))
        return out

    def join(self, eng, lk, root, path, va, vb):
        ka, kb = va[0], vb[0]
        if ka == "s" and kb == "s" or ka in ("A", "T") and kb in ("A", "T"):
            sid = (self.uid, root, path)
            t = self.trans.setdefault(sid, set())
            here = ("#st", sid)
            for v in (va, vb):
                pcs = v[1] if v[0] != "A" else tuple(("e", x) for x in v[1])
                if v[0] == "s":
                    pcs = tuple(self.sealpiece(None, p, None) if p[0] not in ("chv", "f") else p for p in pcs)
                    if pcs == (("ext", here),):
                        continue
                elif pcs == (here,):
                    continue
                t.add(pcs)
            return ("s", (("ext", here),)) if ka == "s" else ("T", (here,))
        return None

    # -- results -----------------------------------------------------------------
    def tokens(self, st, pieces):
        """[alternatives]: each a list of tokens, possibly starting with #st."""
        outs = [[]]
        for p in pieces:
            if p[0] == "k":
                for o in outs:
                    o.extend(("c", x) for x in p[1])
            elif p[0] == "ext":
                for o in outs:
                    o.append(p[1] if isinstance(p[1], tuple) else ("ext", p[1]))
            elif p[0] in ("f", "chv"):
                fv = p[1] if p[0] == "chv" else p
                if fv[0] != "f":
                    for o in outs:
                        o.append(("ext", fv))
                    continue
                vals = fv[2].image(st.dom.get(fv[1], fv[2].uni.full) if st is not None else fv[2].uni.full)
                vals = frozenset((x,) if p[0] == "chv" else tuple(x) for x in vals)
                for o in outs:
                    o.append(("#cc", vals, fv[1], False))
            else:
                for o in outs:
                    o.append(p)
        return outs

    def check(self, st, pieces, monitor):
        """Run the monitor over every string the pieces stand for.  Returns
        None or (message, token path)."""
        GOAL = "GOAL"
        prods = {GOAL: self.tokens(st, pieces)}
        ends = {}                  # (state, monitor state before) -> {monitor state after: path}
        users = {}                 # (state, before) -> configurations waiting for it
        ends[(GOAL, monitor.start())] = {}
        seen = set()

        def begin(key):
            S = key[0]
            if S not in prods:
                prods[S] = [t for p2 in self.trans.get(S, ()) for t in self.tokens(None, p2)]
            return [(key, n, 0, key[1], ()) for n in range(len(prods[S]))]

        todo = begin((GOAL, monitor.start()))
        while todo:
            key, n, i, m, path = todo.pop()
            toks = prods[key[0]][n]
            if (key, n, i, m) in seen:
                continue
            seen.add((key, n, i, m))
            if len(seen) > 400000:
                return ("UNKNOWN: too many states", [])
            while i < len(toks) and toks[i][0] != "#st":
                r = monitor.step(m, toks[i])
                path = path + (toks[i],)
                if isinstance(r, str):
                    return (r, self.prefix(users, key) + list(path))
                m = r
                i += 1
            if i < len(toks):
                sub = (toks[i][1], m)
                users.setdefault(sub, []).append((key, n, i, path))
                if sub not in ends:
                    ends[sub] = {}
                    todo += begin(sub)
                for m2, p2 in list(ends[sub].items()):
                    todo.append((key, n, i + 1, m2, path + p2))
                continue
            if key[0] == GOAL:
                r = monitor.final(m)
                if isinstance(r, str):
                    return (r, list(path))
                continue
            if m in ends[key]:
                continue
            ends[key][m] = path
            for k2, n2, i2, path2 in users.get(key, ()):
                todo.append((k2, n2, i2 + 1, m, path2 + path))
        return None

    def prefix(self, users, key):
        out = []
        seen = set()
        while key in users and key not in seen:
            seen.add(key)
            k2, n2, i2, path = users[key][0]
            out = list(path) + out
            key = k2
        return out


def show(toks):
    """Readable form of a token sequence."""
    o = ""
    for t in toks:
        if t[0] == "c":
            o += chr(t[1])
        elif t[0] == "#m":
            o += "·"
        elif t[0] == "#end":
            o += "¶"
        elif t[0] == "E":
            o += "<%s>" % (t[2] if t[3] is None else "%s %s/%s" % ((t[2],) + t[3]))
        elif t[0] == "#cc":
            o += "<%d chars>" % len(t[1])
        else:
            o += "<%s>" % (t[0],)
    return o
