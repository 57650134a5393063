"""Abstract interpreter over the exported AST.

Forward, flow- and path-sensitive: every program point carries a set of
abstract states; states whose stores agree are joined (union of finite
domains, join of difference bounds) at control-flow merges, at function
returns and at loop heads, where widening guarantees termination.  Calls are
followed into the callee.  Nothing is executed and no solver is used.
"""
import sys
import time
from dom import (Uni, fmap, FMap, Undef, UNDEF, I, sym, aff_add, aff_scale, Z, DBM)
from prog import AnalysisBroken


class NoFixpoint(AnalysisBroken):
    """A loop of the analysed program is beyond the analysis."""


class OutOfTime(NoFixpoint):
    pass


sys.setrecursionlimit(20000)

UNK = ("unk", "?")
VOID = ("void",)
NULL = ("c", None)
TRUE = ("c", True)
FALSE = ("c", False)


def unk(why):
    return ("unk", why)


class Recs:
    """Field layout of record classes."""
    def __init__(self):
        self.lay = {"std::pair": ("first", "second")}

    def get(self, cls):
        return self.lay.get(cls)


class St:
    __slots__ = ("store", "dom", "dbm", "taint", "tr")

    def __init__(self):
        self.store = {}
        self.dom = {}
        self.dbm = DBM()
        self.taint = None
        self.tr = None

    def fork(self):
        s = St.__new__(St)
        s.store = dict(self.store)
        s.dom = dict(self.dom)
        s.dbm = DBM(dict(self.dbm.d))
        s.taint = self.taint
        s.tr = self.tr
        return s

    def note(self, loc, what):
        self.tr = (loc, what, self.tr)

    def trace(self, n=14):
        out = []
        t = self.tr
        while t and len(out) < n:
            out.append("%s %s" % (t[0], t[1]))
            t = t[2]
        return out[::-1]


class Out:
    """Outcome of executing a statement on a set of states."""
    __slots__ = ("n", "b", "c", "r", "g")

    def __init__(self):
        self.n = []
        self.b = []
        self.c = []
        self.r = []          # (state, value)
        self.g = {}          # label -> [state]

    def absorb(self, o, normal=True):
        if normal:
            self.n += o.n
        self.b += o.b
        self.c += o.c
        self.r += o.r
        for k, v in o.g.items():
            self.g.setdefault(k, []).extend(v)


def const(v):
    """Python value of a constant, or None."""
    if v[0] == "c":
        return v[1]
    if v[0] == "l" and not v[1]:
        return v[2]
    if v[0] == "s":
        return strconst(v)
    return None


def isconst(v):
    return v[0] == "c" or (v[0] == "l" and not v[1]) or (v[0] == "s" and strconst(v) is not None)


def strconst(v):
    """Characters of a fully known string: tuple of code units or None."""
    if v[0] != "s":
        return None
    o = ()
    for p in v[1]:
        if p[0] == "k":
            o += p[1]
        else:
            return None
    return o


def S(text):
    """String value from Python str (latin1-mapped bytes) or code units."""
    if isinstance(text, str):
        t = tuple(ord(c) for c in text)
    else:
        t = tuple(text)
    return ("s", (("k", t),)) if t else ("s", ())


def scat(a, b):
    p = a[1]
    q = b[1]
    if p and q and p[-1][0] == "k" and q[0][0] == "k":
        return ("s", p[:-1] + (("k", p[-1][1] + q[0][1]),) + q[1:])
    return ("s", p + q)


class Engine:
    MAXSTATES = 20000
    MAXDEPTH = 60

    def __init__(self, prog, name="analysis"):
        self.p = prog
        self.name = name
        self.recs = Recs()
        self.unis = {}
        self.oblig = {}        # (kind, loc) -> [n checked, n failed]
        self.findings = {}     # key -> dict
        self.unresolved = {}   # key -> msg
        self.unmodelled = {}   # name -> loc
        self.hooks = {}        # qualified name -> handler(eng, st, node, obj, args, fn)
        self.typehooks = {}    # class name -> handler
        self.depth = 0
        self.gcache = {}
        self.faithful = {}
        self.callstack = []
        self.thrown = [[]]
        self.nfresh = 0
        self.fnseen = {}
        self.steps = 0
        self.str_join = None
        self.seq = None
        self.maxgroup = 60
        self.maxnum = 0
        self.lossy = 0
        self.puretab = {}
        self.pureval = {}
        self.canon_order = ()
        self.on_exit = None
        self.typedefaults = {}
        self.val_join = None    # hook: (eng, loopkey, root, path, a, b) -> value or None
        self.EX = {}
        for k in dir(self):
            if k.startswith("e_"):
                self.EX[k[2:]] = getattr(self, k)
        self.SX = {}
        for k in dir(self):
            if k.startswith("s_"):
                self.SX[k[2:]] = getattr(self, k)
        import lib
        self.lib = lib
        lib.install(self)

    # ------------------------------------------------------------------
    # universes and fresh values
    def uni_for(self, t):
        ty = self.p.ty(t)
        c = ty.get("cat")
        if c == "bool":
            return self.uni("bool", (False, True))
        if c == "enum":
            n = ty["decl"]
            if n not in self.p.enums:
                return None
            return self.uni("enum " + n, tuple(sorted({v for _, v in self.p.enums[n]})))
        if c == "char":
            if ty.get("bits", 8) == 8:
                lo = -128 if ty.get("signed") else 0
                return self.uni("char8%d" % lo, tuple(range(lo, lo + 256)))
            return self.charuni()
        return None

    def uni(self, name, atoms):
        u = self.unis.get(name)
        if u is None:
            u = self.unis[name] = Uni(name, atoms)
        return u

    def charuni(self):
        u = self.unis.get("ch16")
        if u is None:
            cs = set(range(0x80)) | set(range(0xE00, 0xE80))
            cs |= {0x80, 0xA0, 0xFF, 0x100, 0xDFF, 0x200B, 0x2028, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xFEFF, 0xFFFF}
            from prog import walk
            for f in self.p.fns.values():
                for n in walk(f["b"]):
                    if n["k"] == "int" and 0 <= n["v"] <= 0xFFFF:
                        for d in (-1, 0, 1):
                            if 0 <= n["v"] + d <= 0xFFFF:
                                cs.add(n["v"] + d)
            u = self.uni("ch16", tuple(sorted(cs)))
        return u

    def newname(self, base):
        self.nfresh += 1
        return (base, self.nfresh)

    def finite(self, st, name, uni, mask=None):
        if mask is not None and mask != uni.full:
            st.dom[name] = mask
        return ("f", name, uni.ident)

    def fresh(self, st, t, name):
        """Unknown but well-typed value of type t; `name` identifies it."""
        ty = self.p.ty(t)
        c = ty.get("cat")
        u = self.uni_for(t)
        if u is not None:
            return self.finite(st, name, u)
        if c == "int":
            if not ty.get("signed"):
                st.dbm.add(Z, name, 0)
            return sym(name)
        if c == "rec":
            h = self.typehooks.get(ty["cls"])
            if h:
                return h(self, st, ty, name)
            v = self.lib.fresh_std(self, st, ty, name)
            if v is not None:
                return v
            lay = self.layout(ty["name"])
            if lay is not None:
                fs = self.fieldtypes(ty["name"])
                return ("r", ty["name"], tuple(self.fresh(st, ft, (name, fn)) for fn, ft in fs))
        return unk("fresh " + str(t))

    def layout(self, cls):
        l = self.recs.lay.get(cls)
        if l is None:
            if cls in self.p.recs:
                l = tuple(f["n"] for f in self.p.fields_of(cls))
                self.recs.lay[cls] = l
            elif cls.startswith("std::pair<"):
                l = self.recs.lay[cls] = ("first", "second")
        return l

    def fieldtypes(self, cls):
        if cls.startswith("std::pair<"):
            ta = self.p.ty(cls).get("targs", [])
            return list(zip(("first", "second"), ta))
        return [(f["n"], f["t"]) for f in self.p.fields_of(cls)]

    # ------------------------------------------------------------------
    # store
    def project(self, st, v, el):
        k = v[0]
        if k == "r":
            lay = self.layout(v[1])
            try:
                return v[2][lay.index(el)]
            except ValueError:
                return unk("no field %s in %s" % (el, v[1]))
        if k == "A":
            if isinstance(el, tuple) and el[0] == "i":
                i = el[1]
                if 0 <= i < len(v[1]):
                    return v[1][i]
            return unk("index")
        if k == "M" and isinstance(el, tuple) and el[0] == "mv":
            for kk, vv in v[1]:
                if kk == el[1]:
                    return vv
        if k == "uninit":
            return v
        if k == "unk":
            return v
        h = self.lib.project(self, st, v, el)
        return h if h is not None else unk("project %s of %s" % (el, k))

    def read(self, st, ref):
        if ref[0] != "ref":
            return unk("read through " + str(ref[0])) if ref[0] != "unk" else ref
        v = st.store.get(ref[1])
        if v is None:
            v = self.lazyroot(st, ref[1])
        for el in ref[2]:
            v = self.project(st, v, el)
        if v[0] == "f":
            return self.norm(st, v)
        return v

    def lazyroot(self, st, root):
        if root[0] == "g":
            v = self.globalval(root[1])
            return v
        if root[0] == "sl":
            return self.staticval(root[1])
        return ("uninit", root)

    def upd(self, v, path, new):
        if not path:
            return new
        el = path[0]
        k = v[0]
        if k == "r":
            lay = self.layout(v[1])
            try:
                i = lay.index(el)
            except ValueError:
                return unk("no field")
            fs = v[2]
            return ("r", v[1], fs[:i] + (self.upd(fs[i], path[1:], new),) + fs[i + 1:])
        if k == "A" and isinstance(el, tuple) and el[0] == "i" and 0 <= el[1] < len(v[1]):
            i = el[1]
            return ("A", v[1][:i] + (self.upd(v[1][i], path[1:], new),) + v[1][i + 1:])
        if k == "M" and isinstance(el, tuple) and el[0] == "mv":
            return ("M", tuple((kk, self.upd(vv, path[1:], new) if kk == el[1] else vv) for kk, vv in v[1]))
        if k == "uninit":
            return unk("partially initialised")
        return unk("update of " + k)

    def write(self, st, ref, v):
        if ref[0] != "ref":
            self.unmodelled.setdefault("write through " + str(ref[0]), "")
            return
        if not ref[2]:
            st.store[ref[1]] = v
            return
        base = st.store.get(ref[1])
        if base is None:
            base = self.lazyroot(st, ref[1])
        st.store[ref[1]] = self.upd(base, ref[2], v)

    # ------------------------------------------------------------------
    # finite values
    def domof(self, st, s, uni):
        return st.dom.get(s, uni.full)

    def norm(self, st, v):
        if v[0] == "f":
            m = st.dom.get(v[1], v[2].uni.full)
            hit = None
            n = 0
            for val, pm in v[2].pre.items():
                if pm & m:
                    n += 1
                    if n > 1:
                        return v
                    hit = val
            if n == 1:
                return self.lift(hit)
        return v

    def lift(self, x):
        if isinstance(x, bool) or x is None:
            return ("c", x)
        if isinstance(x, int):
            return I(x)
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            return x
        if isinstance(x, Undef):
            return unk("undef")
        raise AnalysisBroken("lift %r" % (x,))

    def map1(self, st, v, key, fn):
        """Apply a Python function pointwise to a finite value or constant."""
        if v[0] == "f":
            fm = v[2]
            r = fm._cache.get(key)
            if r is None:
                r = fmap(fm.uni, tuple(x if isinstance(x, Undef) else fn(x) for x in fm.vals))
                fm._cache[key] = r
            return self.norm(st, ("f", v[1], r))
        c = const(v)
        if c is None and v != NULL:
            return unk("map " + str(key))
        r = fn(c)
        if isinstance(r, Undef):
            return ("undef", r.why)
        return self.lift(r)

    def map2(self, st, a, b, key, fn):
        """Pointwise binary operation; returns [(state, value)]."""
        if a[0] == "f" and b[0] == "f":
            if a[1] == b[1] and a[2].uni is b[2].uni:
                k = (key, b[2])
                r = a[2]._cache.get(k)
                if r is None:
                    r = fmap(a[2].uni, tuple(
                        x if isinstance(x, Undef) else y if isinstance(y, Undef) else fn(x, y)
                        for x, y in zip(a[2].vals, b[2].vals)))
                    a[2]._cache[k] = r
                return [(st, self.norm(st, ("f", a[1], r)))]
            # different symbols: enumerate the one with fewer values
            ma = st.dom.get(a[1], a[2].uni.full)
            mb = st.dom.get(b[1], b[2].uni.full)
            na, nb = len(a[2].image(ma)), len(b[2].image(mb))
            out = []
            if na <= nb:
                for s2, c in self.split(st, a):
                    out += self.map2(s2, self.lift(c), b, key, fn)
            else:
                for s2, c in self.split(st, b):
                    out += self.map2(s2, a, self.lift(c), key, fn)
            return out
        if a[0] == "f":
            cb = const(b)
            if cb is None and b != NULL:
                return [(st, unk("map2"))]
            return [(st, self.map1(st, a, (key, "r", cb), lambda x: fn(x, cb)))]
        if b[0] == "f":
            ca = const(a)
            if ca is None and a != NULL:
                return [(st, unk("map2"))]
            return [(st, self.map1(st, b, (key, "l", ca), lambda y: fn(ca, y)))]
        ca, cb = const(a), const(b)
        if (ca is None and a != NULL) or (cb is None and b != NULL):
            return [(st, unk("map2"))]
        r = fn(ca, cb)
        return [(st, unk("undef") if isinstance(r, Undef) else self.lift(r))]

    def split(self, st, v):
        """Partition a state by the value of a finite term: [(state, python value)]."""
        if v[0] != "f":
            return [(st, const(v))]
        m = st.dom.get(v[1], v[2].uni.full)
        out = []
        for val, pm in v[2].pre.items():
            if pm & m:
                s2 = st.fork()
                s2.dom[v[1]] = pm & m
                out.append((s2, val))
        return out

    def refine(self, st, symname, uni, mask):
        m = st.dom.get(symname, uni.full) & mask
        if not m:
            return None
        if m == uni.full:
            st.dom.pop(symname, None)
        else:
            st.dom[symname] = m
        return st

    # ------------------------------------------------------------------
    # integers
    def bounds(self, st, v):
        """(lo, hi) of an affine integer, None when unbounded."""
        if v[0] == "f":
            m = st.dom.get(v[1], v[2].uni.full)
            im = [x for x in v[2].image(m) if not isinstance(x, Undef)]
            if im and all(isinstance(x, int) for x in im):
                return min(im), max(im)
            return None, None
        if v[0] == "c":
            return (int(v[1]), int(v[1])) if isinstance(v[1], (int, bool)) else (None, None)
        if v[0] != "l":
            return None, None
        if not v[1]:
            return v[2], v[2]
        return self.lo(st, v), self.hi(st, v)

    def hi(self, st, v):
        """Upper bound of an affine value using difference bounds."""
        pos = [(s, c) for s, c in v[1] if c > 0]
        neg = [(s, -c) for s, c in v[1] if c < 0]
        d = st.dbm
        # greedy pairing of positive with negative terms, then with zero
        tot = v[2]
        pos = [list(x) for x in pos]
        neg = [list(x) for x in neg]
        for p in pos:
            for n in neg:
                while p[1] > 0 and n[1] > 0:
                    c = d.get(p[0], n[0])
                    if c is None:
                        break
                    k = min(p[1], n[1])
                    tot += c * k
                    p[1] -= k
                    n[1] -= k
        for p in pos:
            if p[1]:
                c = d.get(p[0], Z)
                if c is None:
                    return None
                tot += c * p[1]
        for n in neg:
            if n[1]:
                c = d.get(Z, n[0])
                if c is None:
                    return None
                tot += c * n[1]
        return tot

    def lo(self, st, v):
        h = self.hi(st, aff_scale(v, -1))
        return None if h is None else -h

    def assume_le(self, st, v, k=0):
        """Assume affine v <= k; returns st or None."""
        if not v[1]:
            return st if v[2] <= k else None
        l = self.lo(st, v)
        if l is not None and l > k:
            return None
        t = v[1]
        c = k - v[2]
        if len(t) == 1:
            (s, a) = t[0]
            if a > 0:
                ok = st.dbm.add(s, Z, c // a)
            else:
                ok = st.dbm.add(Z, s, c // (-a))
            return st if ok else None
        if len(t) == 2:
            (s1, a1), (s2, a2) = t
            if a1 == -a2:
                if a1 > 0:
                    ok = st.dbm.add(s1, s2, c // a1)
                else:
                    ok = st.dbm.add(s2, s1, c // a2)
                return st if ok else None
        return st

    def prove_le(self, st, v, k=0):
        h = self.hi(st, v)
        return h is not None and h <= k

    def toint(self, st, v):
        """Affine view of an integer-like value; may split: [(st, affine)] ."""
        if v[0] == "l":
            return [(st, v)]
        if v[0] == "c" and isinstance(v[1], (int, bool)):
            return [(st, I(int(v[1])))]
        if v[0] == "f":
            return [(s2, I(int(c))) for s2, c in self.split(st, v) if isinstance(c, (int, bool))]
        return [(st, v)]

    # ------------------------------------------------------------------
    # obligations
    def where(self, node):
        return node.get("l", "?") if isinstance(node, dict) else str(node)

    def oblige(self, kind, node, st, ok, msg="", tag=None):
        """ok: True discharged, False violated, None could not be decided."""
        loc = self.where(node)
        o = self.oblig.setdefault((kind, loc, tag), [0, 0, 0])
        o[0] += 1
        if ok is True:
            return
        if ok is None or st.taint:
            o[2] += 1
            self.unresolved.setdefault((kind, loc, tag), (msg, st.taint))
            return
        o[1] += 1
        key = (kind, loc, tag)
        if key not in self.findings:
            self.findings[key] = {
                "kind": kind, "loc": loc, "msg": msg, "fn": self.callstack[-1] if self.callstack else "",
                "calls": list(self.callstack), "trace": st.trace(),
                "facts": self.facts(st),
            }

    def facts(self, st):
        out = []
        for s, m in st.dom.items():
            n = bin(m).count("1")
            u = None
            for uu in self.unis.values():
                if m <= uu.full and (u is None or uu.name == "ch16"):
                    u = uu
            if n <= 6 and u is not None and isinstance(s, tuple) and s and s[0] == "ch":
                at = [a for i, a in enumerate(self.charuni().atoms) if m >> i & 1]
                out.append("%s in {%s}" % (self.symname(s), ", ".join(self.cname(a) for a in at)))
        return out[:12]

    def symname(self, s):
        if isinstance(s, tuple) and s and s[0] == "ch":
            return "text[%s]" % self.affname(s[2])
        return str(s)

    def affname(self, v):
        if v[0] != "l":
            return str(v)
        parts = []
        for s, c in v[1]:
            n = str(s) if not isinstance(s, tuple) else str(s[0])
            parts.append(n if c == 1 else "%d*%s" % (c, n))
        if v[2] or not parts:
            parts.append(str(v[2]))
        return "+".join(parts)

    @staticmethod
    def cname(a):
        if isinstance(a, int) and 0x20 < a < 0xffff and not 0xd800 <= a < 0xe000:
            return "%s U+%04X" % (chr(a), a)
        return str(a)

    def drop_sym(self, st, n):
        self.lib.drop(st, n)
        st.dbm.forget(n)
        st.dom.pop(n, None)

    def giveup(self, st, why, node=None):
        self.unmodelled.setdefault(why, self.where(node) if node else "")
        return unk(why)

    # ------------------------------------------------------------------
    # joins
    def same_key(self, st):
        # states are compared by their store (values are hashable tuples)
        return (frozenset(st.store.items()), st.taint)

    def joinfacts(self, a, b):
        """Join b into a (stores equal)."""
        dom = {}
        for s, m in a.dom.items():
            n = b.dom.get(s)
            if n is not None:
                m |= n
                dom[s] = m
        a.dom = dom
        a.dbm = a.dbm.join(b.dbm)
        return a

    def try_join(self, a, b):
        """State covering exactly a and b (stores equal), or None when their
        union is not expressible without losing precision."""
        diff = []
        sub = sup = True          # a within b, b within a
        for s in a.dom.keys() | b.dom.keys():
            x = a.dom.get(s, -1)
            y = b.dom.get(s, -1)
            if x != y:
                diff.append(s)
                if x & y != x:
                    sub = False
                if x & y != y:
                    sup = False
        same = a.dbm.d == b.dbm.d
        if sub and (same or a.dbm.leq(b.dbm)):
            return b
        if sup and (same or b.dbm.leq(a.dbm)):
            return a
        if same:
            if len(diff) != 1:
                return None
            s = diff[0]
            x = a.dom.get(s)
            y = b.dom.get(s)
            r = a.fork()
            if x is None or y is None:
                r.dom.pop(s, None)
            else:
                r.dom[s] = x | y
            return r
        if diff:
            return None
        j = a.dbm.join(b.dbm)
        for (p, q), c in a.dbm.d.items():
            o = j.d.get((p, q))
            if o is not None and o <= c:
                continue
            t = j.copy()
            if t.add(q, p, -c - 1) and not t.leq(b.dbm):
                return None
        r = a.fork()
        r.dbm = j
        return r

    def compact(self, l):
        """Merge states with equal stores as far as this loses nothing."""
        out = []
        for s in l:
            while True:
                for i, g in enumerate(out):
                    r = self.try_join(g, s)
                    if r is not None:
                        del out[i]
                        s = r
                        break
                else:
                    out.append(s)
                    break
        if len(out) > self.maxgroup:
            # first join the states with the same numeric facts, then everything
            self.lossy += 1
            by = {}
            for s in out:
                k = frozenset(s.dbm.d.items())
                if k in by:
                    self.joinfacts(by[k], s)
                else:
                    by[k] = s.fork()
            out = list(by.values())
            k = max(self.maxgroup, self.maxnum)
            if len(out) > k:
                if not self.maxnum:
                    r = out[0]
                    for s in out[1:]:
                        self.joinfacts(r, s)
                    return [r]
                return self.closest(out, k)
        return out

    def closest(self, out, k):
        """Join the most similar states until k are left."""
        def cost(a, b):
            n = 0
            for x in a.dom.keys() | b.dom.keys():
                u, v = a.dom.get(x), b.dom.get(x)
                if u != v:
                    n += 1 if u is not None and v is not None else 3
            d, e = a.dbm.d, b.dbm.d
            for x in d.keys() | e.keys():
                if d.get(x) != e.get(x):
                    n += 1
            return n
        out = list(out)
        cs = {(i, j): cost(out[i], out[j]) for i in range(len(out)) for j in range(i)}
        live = set(range(len(out)))
        while len(live) > k:
            i, j = min(cs, key=cs.get)
            self.joinfacts(out[j], out[i])
            live.discard(i)
            cs = {x: c for x, c in cs.items() if i not in x and j not in x}
            for x in live:
                if x != j:
                    cs[(max(x, j), min(x, j))] = cost(out[x], out[j])
        return [out[i] for i in sorted(live)]

    def merge(self, states):
        if len(states) < 2:
            return states
        groups = {}
        for s in states:
            groups.setdefault(self.same_key(s), []).append(s)
        if len(groups) == len(states):
            return states
        out = []
        for g in groups.values():
            out += g if len(g) == 1 else self.compact(g)
        return out

    def merge_vals(self, pairs):
        if len(pairs) < 2:
            return pairs
        groups = {}
        for s, v in pairs:
            groups.setdefault((self.same_key(s), v), []).append(s)
        if len(groups) == len(pairs):
            return pairs
        out = []
        for k, g in groups.items():
            out += [(s, k[1]) for s in (g if len(g) == 1 else self.compact(g))]
        return out

    # ------------------------------------------------------------------
    # statements
    deadline = 0

    def run(self, states, s):
        """Execute statement s on states."""
        o = Out()
        if s is None:
            o.n = states
            return o
        if not states:
            return o
        self.steps += len(states)
        if self.deadline and time.time() > self.deadline:
            raise OutOfTime("the analysis ran out of time at %s" % self.where(s))
        h = self.SX.get(s["k"])
        if h is None:
            self.giveup(states[0], "statement " + s["k"] + " " + str(s.get("cls")), s)
            o.n = states
            return o
        return h(states, s)

    def s_null(self, states, s):
        o = Out()
        o.n = states
        return o

    def s_expr(self, states, s):
        o = Out()
        e = s["e"]
        d = self.depth
        for st in states:
            had = [r for r in st.store if r[0] == "t" and r[1] == d]
            for s2, _ in self.ev(st, e):
                for r in [r for r in s2.store if r[0] == "t" and r[1] == d and r not in had]:
                    del s2.store[r]
                o.n.append(s2)
        if len(o.n) > 1:
            o.n = self.merge(o.n)
        return o

    def s_block(self, states, s):
        o = Out()
        cur = states
        temps = {r for st in states for r in st.store if r[0] == "t" and r[1] == self.depth}
        stmts = s["s"]
        pend = {}    # forward gotos
        labels = {}
        for i, x in enumerate(stmts):
            for n in self.labels_in(x):
                labels[n] = i
        i = 0
        guard = 0
        while i < len(stmts):
            x = stmts[i]
            if x is None:
                i += 1
                continue
            if pend:
                for n in self.labels_in(x):
                    if n in pend:
                        if x["k"] == "label" and x["n"] == n:
                            cur = cur + pend.pop(n)
                        else:
                            # label nested deeper: enter there
                            self._enter = (n, pend.pop(n))
                            # conservative: treat as reaching the statement's label directly
                            r = self.run_from_label(x, n, self._enter[1])
                            o.absorb(r, normal=False)
                            cur = cur + r.n
            r = self.run(cur, x)
            cur = r.n
            o.b += r.b
            o.c += r.c
            o.r += r.r
            back = None
            for n, sts in r.g.items():
                if n in labels and labels[n] > i:
                    pend.setdefault(n, []).extend(sts)
                elif n in labels and labels[n] <= i:
                    back = (labels[n], n, sts)
                    o.g.setdefault(n, [])
                    self.giveup(sts[0], "backward goto", x)
                    for q in sts:
                        q.taint = "backward goto"
                    o.g.pop(n)
                else:
                    o.g.setdefault(n, []).extend(sts)
            i += 1
        o.n = cur
        dead = x_ = s.get("_decl")
        if dead is None:
            dead = []
            for x in stmts:
                while x is not None and x["k"] in ("label", "case", "default"):
                    x = x["s"]
                if x is not None and x["k"] == "decl":
                    for v in x["v"]:
                        dead.append(v["d"])
                        dead += [b["d"] for b in v.get("bind") or ()]
            dead = s["_decl"] = tuple(dead)
        for l in (o.n, o.b, o.c) + tuple(o.g.values()):
            for st in l:
                for d in dead:
                    st.store.pop(("v", self.depth, d), None)
                for r in [r for r in st.store if r[0] == "t" and r[1] == self.depth and r not in temps]:
                    del st.store[r]
        if dead and len(o.n) > 1:
            o.n = self.merge(o.n)
        return o

    def labels_in(self, x):
        if x is None:
            return ()
        c = x.get("_lab")
        if c is None:
            c = []
            st = [x]
            while st:
                y = st.pop()
                if isinstance(y, dict):
                    if y.get("k") == "label":
                        c.append(y["n"])
                    if y.get("k") in ("lambda",):
                        continue
                    st.extend(v for kk, v in y.items() if kk in ("s", "t", "e", "b", "h") or isinstance(v, list))
                elif isinstance(y, list):
                    st.extend(y)
            c = x["_lab"] = tuple(c)
        return c

    def run_from_label(self, x, n, states):
        """Run statement x starting at label n inside it."""
        k = x["k"]
        if k == "label" and x["n"] == n:
            return self.run(states, x["s"])
        if k == "block":
            stmts = x["s"]
            for i, y in enumerate(stmts):
                if n in self.labels_in(y):
                    r = self.run_from_label(y, n, states)
                    o = Out()
                    o.absorb(r, normal=False)
                    rest = self.run(r.n, {"k": "block", "l": x["l"], "s": stmts[i + 1:]})
                    o.absorb(rest)
                    return o
        if k == "label":
            return self.run_from_label(x["s"], n, states)
        if k == "if":
            for br in ("t", "e"):
                if x.get(br) and n in self.labels_in(x[br]):
                    return self.run_from_label(x[br], n, states)
        self.giveup(states[0], "goto into " + k, x)
        for q in states:
            q.taint = "goto into " + k
        o = Out()
        o.n = states
        return o

    def s_label(self, states, s):
        return self.run(states, s["s"])

    def s_goto(self, states, s):
        o = Out()
        o.g[s["n"]] = states
        return o

    def s_break(self, states, s):
        o = Out()
        o.b = states
        return o

    def s_continue(self, states, s):
        o = Out()
        o.c = states
        return o

    def s_return(self, states, s):
        o = Out()
        e = s.get("e")
        for st in states:
            if e is None:
                o.r.append((st, VOID))
            elif self.retref[-1]:
                for s2, r in self.lv(st, e):
                    o.r.append((s2, r))
            else:
                for s2, v in self.ev(st, e):
                    o.r.append((s2, v))
        return o

    retref = [False]

    def s_decl(self, states, s):
        o = Out()
        cur = states
        for v in s["v"]:
            nxt = []
            for st in cur:
                nxt += self.declare(st, v)
            cur = self.merge(nxt) if len(nxt) > 1 else nxt
        o.n = cur
        return o

    def vroot(self, d):
        return ("v", self.depth, d)

    def declare(self, st, v):
        d = v["d"]
        if v.get("static"):
            self.statics[d] = v
            return [st]
        t = v["t"]
        isref = t.startswith("&")
        if isref:
            self.refvars.add(d)
        init = v.get("init")
        out = []
        if init is None:
            ty = self.p.ty(t)
            if ty.get("cat") == "rec":
                st.store[self.vroot(d)] = self.default_rec(st, ty)
            else:
                st.store[self.vroot(d)] = ("uninit", v["n"])
            return [st]
        if isref:
            for s2, r in self.lv(st, init):
                s2.store[self.vroot(d)] = r
                out.append(s2)
        else:
            for s2, val in self.ev(st, init):
                if val[0] == "undef":
                    val = unk("undef")
                s2.store[self.vroot(d)] = self.coerce(s2, val, t)
                out.append(s2)
        if v.get("bind"):
            for s2 in out:
                base = ("ref", self.vroot(d), ())
                if isref:
                    base = s2.store[self.vroot(d)]
                lay = ("first", "second")
                val = self.read(s2, base)
                if val[0] == "r":
                    lay = self.layout(val[1]) or lay
                for i, b in enumerate(v["bind"]):
                    self.refvars.add(b["d"])
                    if i < len(lay) and base[0] == "ref":
                        s2.store[self.vroot(b["d"])] = ("ref", base[1], base[2] + (lay[i],))
                    else:
                        s2.store[self.vroot(b["d"])] = unk("binding")
        return out

    def default_rec(self, st, ty):
        v = self.lib.default_std(self, st, ty)
        if v is not None:
            return v
        lay = self.layout(ty["name"])
        if lay is None:
            return unk("record " + ty["name"])
        return ("r", ty["name"], tuple(
            self.default_rec(st, self.p.ty(ft)) if self.p.cat(ft) == "rec" else ("uninit", fn)
            for fn, ft in self.fieldtypes(ty["name"])))

    def coerce(self, st, v, t):
        """Value conversion on initialisation (representation only)."""
        c = self.p.cat(t)
        if c == "int" and v[0] == "c" and isinstance(v[1], (int, bool)):
            return I(int(v[1]))
        if c in ("bool",) and v[0] == "l" and not v[1]:
            return ("c", bool(v[2]))
        return v

    def s_if(self, states, s):
        o = Out()
        if s.get("init"):
            r = self.run(states, s["init"])
            states = r.n
        if s.get("cv"):
            states = [x for st in states for x in self.declare(st, s["cv"])]
        ts, fs = [], []
        for st in states:
            a, b = self.cond(st, s["c"])
            ts += a
            fs += b
        ts = self.merge(ts)
        fs = self.merge(fs)
        rt = self.run(ts, s["t"])
        o.absorb(rt)
        if s.get("e") is not None:
            re_ = self.run(fs, s["e"])
            o.absorb(re_)
        else:
            o.n += fs
        o.n = self.merge(o.n)
        return o

    def cond(self, st, e):
        """Branch on expression e: (true states, false states)."""
        k = e["k"]
        if k == "bin" and e["op"] == "&&":
            t, f = self.cond(st, e["a"])
            tt = []
            for s2 in t:
                a, b = self.cond(s2, e["b"])
                tt += a
                f = f + b
            return tt, f
        if k == "bin" and e["op"] == "||":
            t, f = self.cond(st, e["a"])
            ff = []
            for s2 in f:
                a, b = self.cond(s2, e["b"])
                t = t + a
                ff += b
            return t, ff
        if k == "un" and e["op"] == "!":
            t, f = self.cond(st, e["e"])
            return f, t
        if k == "cast" and e["ck"] in ("IntegralToBoolean", "PointerToBoolean", "NoOp") and e["e"]["k"] in ("bin", "un", "call", "mcall", "cast"):
            return self.cond(st, e["e"])
        ts, fs = [], []
        for s2, v in self.ev(st, e):
            a, b = self.branch(s2, v, e)
            ts += a
            fs += b
        return ts, fs

    def branch(self, st, v, node):
        k = v[0]
        loc = self.where(node)
        if k == "c":
            return ([st], []) if v[1] else ([], [st])
        if k == "f":
            v = self.map1(st, v, "bool", lambda x: bool(x) if not (isinstance(x, tuple)) else True)
            if v[0] != "f":
                return self.branch(st, v, node)
            m = st.dom.get(v[1], v[2].uni.full)
            pt = v[2].pre.get(True, 0) & m
            pf = v[2].pre.get(False, 0) & m
            if pt and pf:
                a, b = st, st.fork()
                a.dom[v[1]] = pt
                b.dom[v[1]] = pf
                a.note(loc, "true")
                b.note(loc, "false")
                return [a], [b]
            return ([st], []) if pt else ([], [st])
        if k == "l":
            if not v[1]:
                return ([st], []) if v[2] else ([], [st])
            z = self.cmp(st, "!=", v, I(0))
            ts, fs = [], []
            for s2, b in z:
                (ts if b[1] else fs).append(s2)
            return ts, fs
        if k in ("ref", "lam", "s", "fn"):
            return [st], []
        if k == "undef":
            return [st], [st.fork()]
        if k == "uninit":
            self.oblige("uninitialised-read", node, st, False, "condition on an uninitialised value")
        b = st.fork()
        if not st.taint:
            why = "%s (%s)" % (v[1] if len(v) > 1 else k, loc)
            st.taint = why
            b.taint = why
        return [st], [b]

    def s_switch(self, states, s):
        o = Out()
        if s.get("init"):
            states = self.run(states, s["init"]).n
        if s.get("cv"):
            states = [x for st in states for x in self.declare(st, s["cv"])]
        body = s["b"]
        stmts = body["s"] if body and body["k"] == "block" else [body]
        # flatten case labels: list of (entries, stmt)
        flat = []
        for x in stmts:
            ents = []
            while x is not None and x["k"] in ("case", "default"):
                if x["k"] == "default":
                    ents.append(None)
                else:
                    lo = x["v"]["v"]
                    hi = x["v2"]["v"] if x.get("v2") else lo
                    ents.append((lo, hi))
                x = x["s"]
            flat.append((ents, x))
        allc = [r for ents, _ in flat for r in ents if r]
        enter = {}      # index -> states
        rest = []
        for st in states:
            for s2, v in self.ev(st, s["c"]):
                self.dispatch(s2, v, flat, allc, enter, rest, s)
        hasdef = None
        for i, (ents, _) in enumerate(flat):
            if None in ents:
                hasdef = i
        if hasdef is not None:
            enter.setdefault(hasdef, []).extend(rest)
        else:
            o.n += rest
        cur = []
        decls = []
        for i, (ents, x) in enumerate(flat):
            if i in enter:
                cur = self.merge(cur + enter[i])
            if x is None:
                continue
            r = self.run(cur, x)
            cur = r.n
            o.n += r.b
            o.c += r.c
            o.r += r.r
            for n, sts in r.g.items():
                o.g.setdefault(n, []).extend(sts)
        o.n += cur
        o.n = self.merge(o.n)
        return o

    def dispatch(self, st, v, flat, allc, enter, rest, s):
        if v[0] == "f":
            fm = v[2]
            m = st.dom.get(v[1], fm.uni.full)
            left = m
            for i, (ents, _) in enumerate(flat):
                pm = 0
                for r in ents:
                    if r is None:
                        continue
                    if r[0] == r[1]:
                        pm |= fm.pre.get(r[0], 0)
                    else:
                        for val, q in fm.pre.items():
                            if isinstance(val, int) and r[0] <= val <= r[1]:
                                pm |= q
                pm &= m
                if pm:
                    s2 = st.fork()
                    s2.dom[v[1]] = pm
                    s2.note(self.where(s), "case")
                    enter.setdefault(i, []).append(s2)
                    left &= ~pm
            if left:
                st.dom[v[1]] = left
                st.note(self.where(s), "default")
                rest.append(st)
            return
        c = const(v)
        if c is not None:
            for i, (ents, _) in enumerate(flat):
                for r in ents:
                    if r and r[0] <= int(c) <= r[1]:
                        enter.setdefault(i, []).append(st)
                        return
            rest.append(st)
            return
        if v[0] == "l":
            cur = [st]
            for i, (ents, _) in enumerate(flat):
                for r in ents:
                    if r is None:
                        continue
                    nxt = []
                    for q in cur:
                        for s2, b in self.cmp(q, "==", v, I(r[0])):
                            (enter.setdefault(i, []) if b[1] else nxt).append(s2)
                    cur = nxt
            rest.extend(cur)
            return
        for i, (ents, _) in enumerate(flat):
            if ents:
                q = st.fork()
                q.taint = q.taint or "switch on " + str(v[1])
                enter.setdefault(i, []).append(q)
        st.taint = st.taint or "switch"
        rest.append(st)

    # -- loops -----------------------------------------------------------
    def s_while(self, states, s):
        return self.loop(states, s, s.get("c"), s["b"], None, s.get("cv"))

    def s_for(self, states, s):
        temps = {r for st in states for r in st.store if r[0] == "t" and r[1] == self.depth}
        if s.get("init"):
            r = self.run(states, s["init"])
            states = r.n
        o = self.loop(states, s, s.get("c"), s["b"], s.get("inc"), s.get("cv"))
        if self.seq:
            dead = [("v", self.depth, v["d"]) for v in (s["init"].get("v") or ())] if s.get("init") else []
            for l in (o.n, o.b, o.c) + tuple(o.g.values()):
                for st in l:
                    for r in dead + [r for r in st.store if r[0] == "t" and r[1] == self.depth and r not in temps]:
                        st.store.pop(r, None)
            o.n = self.merge(o.n)
        return o

    def s_do(self, states, s):
        o = Out()
        r = self.run(states, s["b"])
        o.r += r.r
        for n, v in r.g.items():
            o.g.setdefault(n, []).extend(v)
        o.n += r.b
        r2 = self.loop(self.merge(r.n + r.c), s, s["c"], s["b"], None, None)
        o.absorb(r2)
        o.n = self.merge(o.n)
        return o

    UNROLL = 300
    std_method = None      # (eng, st, node, method, object, value, args, fn) -> results, before the models of the library
    followed = None        # list -> visit its elements one after another
    joinhead = None        # condition -> join every state at the head of this loop
    atback = None          # (state, loop) before states are joined there
    unroll = 3
    PEEL = 1

    def loop(self, states, s, c, body, inc, cv):
        o = Out()
        heads = {}
        work = [(st, 0) for st in self.merge(states)]
        if self.joinhead and self.joinhead(c):
            for st, _ in work:
                self.headjoin(heads, st, s)
            work = [(h[0].fork(), -1) for h in heads.values()]
        guard = 0
        while work:
            guard += 1
            if guard > 4000:
                raise NoFixpoint("loop at %s does not stabilise" % self.where(s))
            st, n = work.pop()
            if cv:
                ins = self.declare(st, cv)
            else:
                ins = [st]
            nxt = []
            for q in ins:
                nforks = len(ins)
                if c is not None:
                    t, f = self.cond(q, c)
                else:
                    t, f = [q], []
                o.n += f
                definite = not f or not t
                r = self.run(self.merge(t), body)
                o.r += r.r
                for k, v in r.g.items():
                    o.g.setdefault(k, []).extend(v)
                o.n += r.b
                back = self.merge(r.n + r.c)
                if inc is not None:
                    b2 = []
                    for q2 in back:
                        for q3, _ in self.ev(q2, inc):
                            b2.append(q3)
                    back = self.merge(b2)
                if self.seq:
                    back = self.seq.joined(back, s)
                nxt += [(q2, definite) for q2 in back]
            for q, definite in nxt:
                if self.joinhead and self.joinhead(c):
                    if self.atback:
                        self.atback(q, s)
                    h = self.headjoin(heads, q, s)
                    if h is not None:
                        work.append((h, -1))
                elif definite and n < self.UNROLL and len(nxt) <= 12 and n >= 0:
                    work.append((q, n + 1))
                elif 0 <= n < self.PEEL:
                    work.append((q, n + 1))
                else:
                    h = self.headjoin(heads, q, s)
                    if h is not None:
                        work.append((h, -1))
        o.n = self.merge(o.n)
        return o

    # head join: partition by store skeleton; integers become phi symbols
    def skel(self, v):
        k = v[0]
        if k == "l":
            return "i"
        if k == "r":
            return ("r", v[1], tuple(self.skel(x) for x in v[2]))
        if k == "s":
            return "s" if strconst(v) is None or True else v
        if k in ("A", "L", "T") or k == "Q" and self.joinhead:
            return "q"
        if k == "itq":
            return ("itq", v[1])
        if k == "ref":
            return v
        if k == "dag":
            return k
        return v

    def headjoin(self, heads, st, s):
        key = (self.where(s), tuple(sorted(((repr(r), self.skel(v)) for r, v in st.store.items() if r[0] != "q"), key=lambda x: x[0])), st.taint)
        if self.seq:
            key = self.seq.headkey(st, key)
        try:
            old = heads.get(key)
        except TypeError:
            raise
        if old is None:
            q = st.fork()
            self.gc(q)
            heads[key] = [q, 0]
            return q.fork()
        new, changed = self.join_states(old[0], st, (self.where(s), self.depth), old[1] > 2)
        if not changed:
            return None
        old[0] = new
        old[1] += 1
        if old[1] > 40:
            raise NoFixpoint("no fixpoint at %s" % self.where(s))
        return new.fork()

    def join_states(self, a, b, lk, widen):
        """Join state b into head state a.  Returns (state, changed)."""
        b = b.fork()
        a2 = a.fork()
        phis = {}
        # rename phi symbols living in b so that they can be rebound
        ren = {}
        for x in self.symsin(b):
            if isinstance(x, tuple) and x and x[0] == "phi" and x[1] == lk:
                ren[x] = ("old",) + x
        if ren:
            self.rename(b, ren)
        # so that a symbol is not rebound while other values still mention it
        ren = {x: ("was",) + x for x in self.symsin(a) if isinstance(x, tuple) and x and x[0] == "phi" and x[1] == lk and self.elsewhere(a, x)}
        if ren:
            self.rename(a2, ren)
        orig = a2.store.copy()
        changed = False
        for root in list(a.store):
            if root[0] == "q":
                continue
            va = orig[root]
            vb = b.store.get(root)
            if vb is None:
                continue
            nv = self.joinval(va, vb, lk, root, (), a2, b)
            if nv != a.store[root]:
                changed = True
            a2.store[root] = nv
            b.store[root] = nv
        for root in [r for r in a2.store if r[0] == "q"]:
            del a2.store[root]
        dom = {}
        for sy, m in a2.dom.items():
            n = b.dom.get(sy)
            if n is not None:
                dom[sy] = m | n
        if dom != a.dom:
            changed = True
        dj = a2.dbm.join(b.dbm)
        if widen:
            dj = a.dbm.widen(dj) if not changed else a2.dbm.widen(dj)
        res = a2
        res.dom = dom
        res.dbm = dj
        self.gc(res)
        ref = a.fork()
        if not changed:
            ra = a.fork()
            # compare on retained symbols
            changed = not (res.dbm.d == ra.dbm.d and res.dom == ra.dom)
        return res, changed

    def elsewhere(self, st, x):
        """Is the joined number x not the value of its variable (any more)?"""
        if len(x) < 4 or x[3]:
            return False
        v = st.store.get(x[2])
        return v is not None and v[0] == "l" and v != sym(x)

    def joinval(self, va, vb, lk, root, path, a2, b):
        if va == vb:
            return va
        if self.val_join:
            r = self.val_join(self, lk, root, path, va, vb)
            if r is not None:
                return r
        ka, kb = va[0], vb[0]
        if ka == "l" and kb == "l":
            ph = ("phi", lk, root, path)
            pv = sym(ph)
            if va != pv:
                self.bind(a2, ph, va)
            self.bind(b, ph, vb)
            return pv
        if ka == "r" and kb == "r" and va[1] == vb[1]:
            lay = self.layout(va[1])
            return ("r", va[1], tuple(
                self.joinval(x, y, lk, root, path + (lay[i],), a2, b)
                for i, (x, y) in enumerate(zip(va[2], vb[2]))))
        if ka in ("A", "L") and kb in ("A", "L"):
            ea = va[1] if ka == "A" else va[1]
            eb = vb[1]
            els = []
            for x in list(ea) + list(eb):
                if x not in els:
                    els.append(x)
            if len(els) > 200:
                return unk("big list")
            may0 = (not ea if ka == "A" else va[2]) or (not eb if kb == "A" else vb[2])
            return ("L", tuple(sorted(els, key=repr)), may0)
        if "Q" in (ka, kb) and ka in ("Q", "A") and kb in ("Q", "A"):
            q = va if ka == "Q" else vb
            o = vb if ka == "Q" else va
            if o[0] == "Q" and o[1] == q[1] and o[3] == q[3] or o == ("A", ()):
                zs = [I(0) if x[0] == "A" else x[2] for x in (va, vb)]
                if all(z[0] == "l" for z in zs):
                    return ("Q", q[1], self.joinval(zs[0], zs[1], lk, root, path + ("#",), a2, b), q[3])
        if ka == "s" and kb == "s":
            if self.str_join:
                return self.str_join(va, vb)
            return ("s", (("ext", ("join", lk, root, path)),))
        if ka == "itq" and kb == "itq" and va[1] == vb[1]:
            ph = ("phi", lk, root, path)
            for stt, v in ((a2, va), (b, vb)):
                if v[2] != ph:
                    d = stt.dom.get(("atend", v[2]))
                    if d is not None:
                        stt.dom[("atend", ph)] = d
                    else:
                        stt.dom.pop(("atend", ph), None)
            return ("itq", va[1], ph)
        return unk("join %s/%s" % (ka, kb))

    def bind(self, st, name, v):
        """Record name == v in the difference bounds of st."""
        st.dbm.forget(name)
        t = v[1]
        if not t:
            st.dbm.add(name, Z, v[2])
            st.dbm.add(Z, name, -v[2])
        elif len(t) == 1 and t[0][1] == 1:
            st.dbm.add(name, t[0][0], v[2])
            st.dbm.add(t[0][0], name, -v[2])
        else:
            h, l = self.hi(st, v), self.lo(st, v)
            if h is not None:
                st.dbm.add(name, Z, h)
            if l is not None:
                st.dbm.add(Z, name, -l)
            # differences to the symbols in v
            for s in {x for x, _ in t} | self.pinned:
                d = aff_add(v, sym(s), -1)
                h, l = self.hi(st, d), self.lo(st, d)
                if h is not None:
                    st.dbm.add(name, s, h)
                if l is not None:
                    st.dbm.add(s, name, -l)

    pinned = set()

    def symsin(self, st):
        out = set(st.dbm.syms())
        for v in st.store.values():
            self.valsyms(v, out)
        for s in st.dom:
            out.add(s)
            self.innersyms(s, out)
        return out

    def innersyms(self, s, out):
        if isinstance(s, tuple) and s and s[0] == "ch":
            out.update(x for x, _ in s[2][1])

    def valsyms(self, v, out):
        k = v[0]
        if k == "l":
            for s, _ in v[1]:
                out.add(s)
        elif k == "f":
            out.add(v[1])
            self.innersyms(v[1], out)
        elif k == "r":
            for x in v[2]:
                self.valsyms(x, out)
        elif k in ("A", "L"):
            for x in v[1]:
                self.valsyms(x, out)
        elif k == "s":
            for p in v[1]:
                if p[0] == "f":
                    out.add(p[1])
                    self.innersyms(p[1], out)
                elif p[0] in ("sub", "chv"):
                    for x in p[1:]:
                        if isinstance(x, tuple):
                            self.valsyms(x, out)
        elif k == "itq":
            out.add(v[2])
        elif k in ("dag", "gh"):
            for x in v[1:]:
                self.anysyms(x, out)

    def anysyms(self, x, out):
        if isinstance(x, (tuple, frozenset)):
            if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ("l", "f", "r", "A", "L", "s", "itq", "dag", "gh"):
                self.valsyms(x, out)
            else:
                for y in x:
                    self.anysyms(y, out)

    def rename(self, st, ren):
        st.store = {r: self.rnval(v, ren) for r, v in st.store.items()}
        for s in st.dbm.syms():
            if isinstance(s, tuple) and s[0] == "elt" and any(x in ren for x, _ in s[2][1]):
                st.dbm.forget(s)
        st.dbm.rename(ren)
        st.dom = {self.rnsym(s, ren): m for s, m in st.dom.items()}

    def rnsym(self, s, ren):
        if s in ren:
            return ren[s]
        if isinstance(s, tuple) and s and s[0] == "ch":
            return ("ch", s[1], self.rnval(s[2], ren))
        if isinstance(s, tuple) and s and s[0] == "atend":
            return ("atend", ren.get(s[1], s[1]))
        return s

    def rnval(self, v, ren):
        k = v[0]
        if k == "l":
            if not v[1] or not any(s in ren for s, _ in v[1]):
                return v
            t = {}
            for s, c in v[1]:
                s = ren.get(s, s)
                t[s] = t.get(s, 0) + c
            return ("l", tuple(sorted(((s, c) for s, c in t.items() if c), key=lambda x: str(x[0]))), v[2])
        if k == "f":
            return ("f", self.rnsym(v[1], ren), v[2])
        if k == "r":
            return ("r", v[1], tuple(self.rnval(x, ren) for x in v[2]))
        if k == "A":
            return ("A", tuple(self.rnval(x, ren) for x in v[1]))
        if k == "L":
            return ("L", tuple(self.rnval(x, ren) for x in v[1]), v[2])
        if k == "s":
            return ("s", tuple(self.rnpiece(p, ren) for p in v[1]))
        if k == "itq":
            return ("itq", v[1], ren.get(v[2], v[2]))
        if k in ("dag", "gh"):
            return (k,) + tuple(self.rnany(x, ren) for x in v[1:])
        return v

    def rnpiece(self, p, ren):
        if p[0] == "f":
            return ("f", self.rnsym(p[1], ren), p[2])
        if p[0] in ("sub", "chv"):
            return tuple(self.rnval(x, ren) if isinstance(x, tuple) and x and x[0] in ("l", "f") else x for x in p)
        return p

    def rnany(self, x, ren):
        if isinstance(x, frozenset):
            return frozenset(self.rnany(y, ren) for y in x)
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and x[0] in ("l", "f", "r", "A", "L", "s", "itq", "dag", "gh"):
                return self.rnval(x, ren)
            return tuple(self.rnany(y, ren) for y in x)
        return x

    def gc(self, st):
        live = set(self.pinned)
        live.add(Z)
        for v in st.store.values():
            self.valsyms(v, live)
        # a char fact stays as long as its index symbols are live
        dom = {}
        for s, m in st.dom.items():
            if s in live:
                dom[s] = m
            elif isinstance(s, tuple) and s and s[0] == "ch":
                if all(x in live for x, _ in s[2][1]):
                    dom[s] = m
            elif isinstance(s, tuple) and s and s[0] == "atend" and s[1] in live:
                dom[s] = m
        st.dom = dom
        for s in dom:
            self.innersyms(s, live)
        st.dbm.restrict(live)

    # -- range for -------------------------------------------------------
    def s_rfor(self, states, s):
        o = Out()
        if s.get("init"):
            states = self.run(states, s["init"]).n
        v = s["v"]
        isref = v["t"].startswith("&")
        if isref:
            self.refvars.add(v["d"])
        todo = []
        for st in states:
            for s2, ref in self.lv(st, s["r"]):
                todo.append((s2, ref))
        summ = []
        for st, ref in todo:
            c = self.read(st, ref)
            c = self.lib.seq_view(self, st, ref, c)
            if c[0] == "A" and (len(c[1]) <= self.unroll or self.followed and self.followed(c) or all(isconst(x) or (x[0] == "r" and all(isconst(y) for y in x[2])) for x in c[1])):
                cur = [st]
                for i, el in enumerate(c[1]):
                    nxt = []
                    for q in cur:
                        q.store[self.vroot(v["d"])] = ("ref", ref[1], ref[2] + (("i", i),)) if isref else \
                            self.project(q, self.lib.seq_view(self, q, ref, self.read(q, ref)), ("i", i))
                        r = self.run([q], s["b"])
                        o.n += r.b
                        o.r += r.r
                        for k, x in r.g.items():
                            o.g.setdefault(k, []).extend(x)
                        nxt += r.n + r.c
                    cur = self.merge(nxt)
                o.n += cur
            elif c[0] in ("A", "L"):
                summ.append((st, ref, c))
            elif c[0] == "gl":
                self.seq.rfor(st, ref, c[1], s, v, isref, o)
            else:
                self.unkrange(st, ref, c, s, v, isref, o)
        if summ:
            self.setrange(summ, s, v, isref, o)
        for q in o.n:
            q.store.pop(self.vroot(v["d"]), None)
        o.n = self.merge(o.n)
        return o

    def setrange(self, summ, s, v, isref, o):
        """Range-for over sequences known as sets of possible elements: every
        element is visited once; the body is analysed once per distinct element
        value, from the join of all states that contain it."""
        vr = self.vroot(v["d"])
        er = ("el", self.depth, v["d"])
        # group by store without the sequence itself
        groups = {}
        for st, ref, c in summ:
            whole = st.store.get(ref[1])
            st.store = dict(st.store)
            if not ref[2]:
                st.store[ref[1]] = ("gone", "sequence being iterated")
            g = groups.setdefault((frozenset(st.store.items()), st.taint, ref), {"els": {}, "empty": None, "all": None})
            els = c[1]
            for el in els:
                cur = g["els"].get(el)
                if cur is None:
                    g["els"][el] = st.fork()
                else:
                    self.joinfacts(cur, st)
            may0 = (not els) if c[0] == "A" else c[2]
            g["all"] = st.fork() if g["all"] is None else self.joinfacts(g["all"], st)
            if c[0] == "A":
                g.setdefault("orig", set()).add(c)
            if may0:
                g["empty"] = st.fork() if g["empty"] is None else self.joinfacts(g["empty"], st)
        for (sk, taint, ref), g in groups.items():
            visited = {}
            elems = list(g["els"].items())
            heads = {}
            outs = []
            idle = {}
            # first pass: from the entry facts of each element
            pend = []
            for el, st in elems:
                pend.append((el, st.fork()))
            if g["empty"] is not None:
                outs.append(g["empty"])
            if self.jobs > 1 and len(pend) >= 8 and not self.inchild:
                got = self.parallel(pend, s, v, isref, sk, er, vr)
                if got is not None:
                    for t, (dom, dbm) in got.items():
                        q = next(iter(g["els"].values())).fork()
                        q.store = dict(q.store)
                        q.store.pop(er, None)
                        q.store.pop(vr, None)
                        q.dom, q.dbm, q.taint = dom, DBM(dbm), t
                        if not ref[2]:
                            q.store[ref[1]] = unk("list after its loop")
                        outs.append(q)
                    for q in outs:
                        o.n.append(self.restore(q, ref, g, visited))
                    continue
            guard = 0
            while pend:
                guard += 1
                if guard > 3000:
                    raise NoFixpoint("range loop at %s does not stabilise" % self.where(s))
                el, st = pend.pop()
                if isref:
                    st.store[er] = el
                    st.store[vr] = ("ref", er, ())
                else:
                    st.store[vr] = el
                r = self.run([st], s["b"])
                o.r += [(self.restore(q, ref, g, visited), x) for q, x in r.r]
                for k, x in r.g.items():
                    o.g.setdefault(k, []).extend(self.restore(q, ref, g, visited) for q in x)
                o.n += [self.restore(q, ref, g, visited) for q in r.b]
                for q in r.n + r.c:
                    nv = q.store.pop(er, el)
                    q.store.pop(vr, None)
                    visited[nv] = 1
                    if frozenset(q.store.items()) == sk:
                        # nothing carried over: other elements start from the entry state
                        if q.taint in idle:
                            self.joinfacts(idle[q.taint], q)
                        else:
                            idle[q.taint] = q
                        continue
                    h = self.headjoin(heads, q, s)
                    if h is not None:
                        for el2, st2 in elems:
                            pend.append((el2, h.fork()))
                        outs.append(h.fork())
            for q in self.merge(outs + list(idle.values())):
                o.n.append(self.restore(q, ref, g, visited))

    jobs = 1
    inchild = False
    par_collect = par_absorb = None

    def parallel(self, pend, s, v, isref, sk, er, vr):
        """Run the loop body for independent elements in forked processes.
        Returns the joined facts after the loop per taint, or None when
        something is carried over and the elements are not independent."""
        import os, pickle
        n = min(self.jobs, len(pend))
        kids = []
        for w in range(n):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    out = self.child(pend[w::n], s, v, isref, sk, er, vr)
                    with os.fdopen(wr, "wb") as f:
                        pickle.dump(out, f, pickle.HIGHEST_PROTOCOL)
                    code = 0
                except AnalysisBroken:
                    code = 2
                finally:
                    os._exit(code)
            os.close(wr)
            kids.append((pid, r))
        res = []
        fail = False
        for pid, r in kids:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            st = os.waitpid(pid, 0)[1]
            if st != 0 or not data:
                fail = True
                continue
            res.append(pickle.loads(data))
        if fail or any(x is None for x in res):
            return None
        idle = {}
        for x in res:
            for t, (dom, dbm) in x["idle"].items():
                if t in idle:
                    a, b = St(), St()
                    a.dom, a.dbm = idle[t][0], DBM(idle[t][1])
                    b.dom, b.dbm = dom, DBM(dbm)
                    self.joinfacts(a, b)
                    idle[t] = (a.dom, a.dbm.d)
                else:
                    idle[t] = (dom, dbm)
            for k, c in x["oblig"].items():
                o = self.oblig.setdefault(k, [0, 0, 0])
                for i in range(3):
                    o[i] += c[i]
            for k, f in x["findings"].items():
                self.findings.setdefault(k, f)
            for k, f in x["unresolved"].items():
                self.unresolved.setdefault(k, f)
            for k, f in x["unmodelled"].items():
                self.unmodelled.setdefault(k, f)
            for k, c in x["fnseen"].items():
                self.fnseen[k] = self.fnseen.get(k, 0) + c
            self.steps += x["steps"]
            self.lossy += x["lossy"]
            if self.par_absorb:
                self.par_absorb(x["extra"])
        return idle

    def child(self, pend, s, v, isref, sk, er, vr):
        self.inchild = True
        self.oblig, self.findings, self.unresolved, self.unmodelled, self.fnseen = {}, {}, {}, {}, {}
        self.steps = self.lossy = 0
        nthrown = [len(x) for x in self.thrown]
        if self.par_collect:
            self.par_collect(True)
        idle = {}
        for el, st in pend:
            if isref:
                st.store[er] = el
                st.store[vr] = ("ref", er, ())
            else:
                st.store[vr] = el
            r = self.run([st], s["b"])
            if r.r or r.b or any(r.g.values()):
                return None
            for q in r.n + r.c:
                q.store.pop(er, None)
                q.store.pop(vr, None)
                if frozenset(q.store.items()) != sk:
                    return None
                if q.taint in idle:
                    self.joinfacts(idle[q.taint], q)
                else:
                    idle[q.taint] = q
        if [len(x) for x in self.thrown] != nthrown:
            return None
        return {"idle": {t: (q.dom, q.dbm.d) for t, q in idle.items()}, "oblig": self.oblig, "findings": self.findings,
                "unresolved": self.unresolved, "unmodelled": self.unmodelled, "fnseen": self.fnseen,
                "steps": self.steps, "lossy": self.lossy, "extra": self.par_collect(False) if self.par_collect else None}

    def restore(self, q, ref, g, visited):
        if not ref[2] and q.store.get(ref[1], ("",))[0] == "gone":
            orig = g.get("orig")
            same = all(v in g["els"] for v in visited)
            if orig and len(orig) == 1 and same:
                q.store[ref[1]] = next(iter(orig))
            else:
                q.store[ref[1]] = ("L", tuple(sorted(visited, key=repr)), g["empty"] is not None)
        return q

    def unkrange(self, st, ref, c, s, v, isref, o):
        """Range-for over a sequence of unknown length."""
        vr = self.vroot(v["d"])
        el = self.lib.elem_of(self, st, c, ("rfor", self.where(s), self.depth))
        if el is None:
            self.giveup(st, "range-for over %s" % (c[:2],), s)
            el = unk("element")
        heads = {}
        work = [st.fork()]
        o.n.append(st)
        guard = 0
        er = ("el", self.depth, v["d"])
        while work:
            guard += 1
            if guard > 200:
                raise NoFixpoint("range loop at %s does not stabilise" % self.where(s))
            q = work.pop()
            ev_ = self.lib.elem_of(self, q, c, ("rfor", self.where(s), self.depth)) or unk("element")
            if isref:
                q.store[er] = ev_
                q.store[vr] = ("ref", er, ())
            else:
                q.store[vr] = ev_
            r = self.run([q], s["b"])
            o.r += r.r
            o.n += r.b
            for k, x in r.g.items():
                o.g.setdefault(k, []).extend(x)
            for q2 in self.merge(r.n + r.c):
                nv = q2.store.pop(er, None)
                q2.store.pop(vr, None)
                h = self.headjoin(heads, q2, s)
                if h is not None:
                    work.append(h.fork())
                    o.n.append(h.fork())

    def s_try(self, states, s):
        o = Out()
        self.thrown.append([])
        r = self.run(states, s["b"])
        th = self.thrown.pop()
        o.absorb(r)
        for st, exc in th:
            done = False
            for h in s["h"]:
                if h["t"] == "..." or self.exc_matches(exc, h["t"]):
                    if h.get("v") is not None:
                        d = h["v"]["d"]
                        if h["v"]["t"].startswith("&"):
                            self.refvars.add(d)
                            st.store[("exc", self.depth)] = ("exc", exc)
                            st.store[self.vroot(d)] = ("ref", ("exc", self.depth), ())
                        else:
                            st.store[self.vroot(d)] = ("exc", exc)
                    r = self.run([st], h["b"])
                    o.absorb(r)
                    done = True
                    break
            if not done:
                self.thrown[-1].append((st, exc))
        o.n = self.merge(o.n)
        return o

    EXC_BASES = {
        "std::out_of_range": ["std::logic_error", "std::exception"],
        "std::range_error": ["std::runtime_error", "std::exception"],
        "std::invalid_argument": ["std::logic_error", "std::exception"],
        "std::logic_error": ["std::exception"],
        "std::runtime_error": ["std::exception"],
        "std::bad_alloc": ["std::exception"],
        "std::length_error": ["std::logic_error", "std::exception"],
    }

    def exc_matches(self, exc, t):
        return exc == t or t in self.EXC_BASES.get(exc, ()) or exc in self.p.recs and t in self.p.bases_of(exc)

    def throw(self, st, exc, node):
        st.note(self.where(node), "throws " + exc)
        self.thrown[-1].append((st, exc))

    # ------------------------------------------------------------------
    # expressions
    def ev(self, st, e):
        h = self.EX.get(e["k"])
        if h is None:
            return [(st, self.giveup(st, "expression %s %s" % (e["k"], e.get("cls")), e))]
        return h(st, e)

    def evs(self, st, es):
        """Evaluate a list of expressions left to right: [(st, [vals])]."""
        out = [(st, [])]
        for e in es:
            nxt = []
            for s2, vs in out:
                for s3, v in self.ev(s2, e):
                    nxt.append((s3, vs + [v]))
            out = nxt
        return out

    def e_int(self, st, e):
        t = e["t"]
        v = e["v"]
        c = self.p.cat(t)
        if c == "bool":
            return [(st, ("c", bool(v)))]
        if c == "int":
            ty = self.p.ty(t)
            if not ty.get("signed") and v < 0:
                v += 1 << ty.get("bits", 64)
            return [(st, I(v))]
        return [(st, I(v))]

    def e_null(self, st, e):
        return [(st, NULL)]

    def e_zero(self, st, e):
        c = self.p.cat(e["t"])
        if c == "bool":
            return [(st, FALSE)]
        if c == "ptr":
            return [(st, NULL)]
        if c == "rec":
            return [(st, self.default_rec(st, self.p.ty(e["t"])))]
        return [(st, I(0))]

    def e_str(self, st, e):
        if "v" in e:
            return [(st, S(e["v"]))]
        return [(st, S(e["cu"]))]

    def e_this(self, st, e):
        v = st.store.get(("this", self.depth))
        return [(st, v if v is not None else unk("this"))]

    def rv(self, st, e):
        """Evaluate an lvalue expression and read it."""
        out = []
        for s2, r in self.lv(st, e):
            v = self.read(s2, r)
            if v[0] == "uninit":
                if self.p.cat(e.get("t", "?")) in ("int", "bool", "enum", "char", "ptr"):
                    self.oblige("uninitialised-read", e, s2, False, "reads %s before it is set" % (e.get("n") or e.get("f")))
                v = unk("uninitialised")
            out.append((s2, v))
        return out

    e_ref = rv
    e_mem = rv

    def e_idx(self, st, e):
        out = []
        for s2, (b, i) in [(s2, vs) for s2, vs in self.idxparts(st, e)]:
            out += self.index(s2, b, i, e)
        return out

    def idxparts(self, st, e):
        out = []
        if self.p.cat(e["b"].get("t", "?")) == "arr":
            for s2, r in self.lv(st, e["b"]):
                for s3, i in self.ev(s2, e["i"]):
                    out.append((s3, (r, i)))
        else:
            for s2, b in self.ev(st, e["b"]):
                for s3, i in self.ev(s2, e["i"]):
                    out.append((s3, (b, i)))
        return out

    def index(self, st, b, i, e):
        """Read b[i]."""
        v = self.read(st, b) if b[0] == "ref" else b
        if b[0] == "ref" and b[2] and isinstance(b[2][-1], tuple) and b[2][-1][0] == "i":
            # pointer into an array
            base = self.read(st, ("ref", b[1], b[2][:-1]))
            if base[0] == "A":
                v = base
                i = self.add_int(i, I(b[2][-1][1]))
        if v[0] == "A":
            n = len(v[1])
            if i[0] == "f":
                m = self.map1(st, i, ("inb", n), lambda x: 0 <= x < n)
                bad = m[0] == "c" and not m[1] or m[0] == "f"
                self.oblige("array-bounds", e, st, not bad, "index %s outside the %d-element table" % (self.witness(st, i, lambda x: not 0 <= x < n), n))
                if m[0] == "f":
                    q = self.refine(st, m[1], m[2].uni, m[2].pre.get(True, 0))
                    if q is None:
                        return []
                elif not m[1]:
                    return []
                els = v[1]
                if all(isconst(x) for x in els):
                    return [(st, self.map1(st, i, ("tbl", els), lambda x: self.unlift(els[x]) if 0 <= x < n else UNDEF))]
                return [(s2, els[c]) for s2, c in self.split(st, i)]
            c = const(i)
            if c is not None:
                ok = 0 <= c < n
                self.oblige("array-bounds", e, st, ok, "index %d outside the %d-element array" % (c, n))
                return [(st, v[1][c])] if ok else []
        h = self.lib.index(self, st, b, v, i, e)
        if h is not None:
            return h
        return [(st, self.giveup(st, "index into %s" % v[0], e))]

    def unlift(self, v):
        c = const(v)
        if v[0] == "s":
            return v
        return c

    def witness(self, st, v, bad):
        if v[0] != "f":
            return str(const(v))
        m = st.dom.get(v[1], v[2].uni.full)
        for i, (atom, x) in enumerate(zip(v[2].uni.atoms, v[2].vals)):
            if m >> i & 1:
                try:
                    if isinstance(x, Undef) or bad(x):
                        return "%s (for %s)" % (x, self.cname(atom))
                except TypeError:
                    pass
        return "?"

    def e_un(self, st, e):
        op = e["op"]
        if op == "&":
            return [(s2, r) for s2, r in self.lv(st, e["e"])]
        if op == "*":
            return self.rv(st, e)
        if op in ("++", "--", "p++", "p--"):
            out = []
            d = 1 if op.endswith("++") else -1
            for s2, r in self.lv(st, e["e"]):
                old = self.read(s2, r)
                if old[0] == "uninit":
                    self.oblige("uninitialised-read", e, s2, False, "increments an unset variable")
                    old = unk("uninit")
                for s3, new in self.arith(s2, "+", old, I(d), e["t"], e):
                    self.write(s3, r, new)
                    out.append((s3, old if op[0] == "p" else new))
            return out
        out = []
        for s2, v in self.ev(st, e["e"]):
            if op == "!":
                out.append((s2, self.negate(s2, v, e)))
            elif op == "-":
                if v[0] == "l":
                    out.append((s2, aff_scale(v, -1)))
                else:
                    out.append((s2, self.map1(s2, v, "neg", lambda x: -x)))
            elif op == "+":
                out.append((s2, v))
            elif op == "~":
                out.append((s2, self.map1(s2, v, "inv", lambda x: ~x)))
            else:
                out.append((s2, self.giveup(s2, "operator " + op, e)))
        return out

    def negate(self, st, v, e):
        if v[0] in ("c", "f"):
            return self.map1(st, v, "not", lambda x: not x)
        if v[0] == "l" and not v[1]:
            return ("c", not v[2])
        if v[0] == "ref":
            return FALSE
        return unk("not")

    def e_bin(self, st, e):
        op = e["op"]
        if op in ("&&", "||"):
            t, f = self.cond(st, e)
            out = [(s2, TRUE) for s2 in self.merge(t)] + [(s2, FALSE) for s2 in self.merge(f)]
            return out
        if op == ",":
            out = []
            for s2, _ in self.ev(st, e["a"]):
                out += self.ev(s2, e["b"])
            return out
        if op == "=":
            out = []
            for s2, v in self.ev(st, e["b"]):
                for s3, r in self.lv(s2, e["a"]):
                    if v[0] == "undef":
                        v = unk("undef")
                    self.write(s3, r, self.coerce(s3, v, e["t"]))
                    out.append((s3, v))
            return out
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            out = []
            for s2, v in self.ev(st, e["b"]):
                for s3, r in self.lv(s2, e["a"]):
                    old = self.read(s3, r)
                    if old[0] == "uninit":
                        self.oblige("uninitialised-read", e, s3, False, "updates an unset variable")
                        old = unk("uninit")
                    for s4, new in self.arith(s3, op[:-1], old, v, e["t"], e):
                        self.write(s4, r, new)
                        out.append((s4, new))
            return out
        out = []
        for s2, (a, b) in self.evs(st, (e["a"], e["b"])):
            if op in ("==", "!=", "<", "<=", ">", ">="):
                out += self.cmp(s2, op, a, b, e)
            else:
                out += self.arith(s2, op, a, b, e["t"], e)
        return out

    PY = {"==": lambda x, y: x == y, "!=": lambda x, y: x != y, "<": lambda x, y: x < y,
          "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y}

    def cmp(self, st, op, a, b, node=None):
        """Comparison; returns [(st, bool value)]."""
        if a[0] == "undef":
            a = unk("undef")
        if b[0] == "undef":
            b = unk("undef")
        if a[0] == "l" and b[0] == "l":
            d = aff_add(a, b, -1)
            if not d[1]:
                return [(st, ("c", self.PY[op](d[2], 0)))]
            if self.seq and -2 < d[2] < 2 and any(isinstance(x[0], tuple) and x[0][0] == "tsz" for x in d[1]):
                # how many there are is not known exactly enough for this
                return [(st, self.giveup(st, "size of a list built in a loop", node))]
            if op == ">":
                d = aff_scale(d, -1)
                op = "<"
            elif op == ">=":
                d = aff_scale(d, -1)
                op = "<="
            loc = self.where(node) if node else ""
            if op in ("<", "<="):
                k = -1 if op == "<" else 0
                if self.prove_le(st, d, k):
                    return [(st, TRUE)]
                f = st.fork()
                out = []
                t = self.assume_le(st, d, k)
                f = self.assume_le(f, aff_scale(d, -1), -k - 1)
                if t is not None and f is not None:
                    t.note(loc, "true")
                    f.note(loc, "false")
                if t is not None:
                    out.append((t, TRUE))
                if f is not None:
                    out.append((f, FALSE))
                return out
            # == / !=
            lo, hi = self.lo(st, d), self.hi(st, d)
            out = []
            eqv = op == "=="
            if (lo is None or lo <= 0) and (hi is None or hi >= 0):
                q = st.fork()
                q = self.assume_le(q, d, 0)
                q = q and self.assume_le(q, aff_scale(d, -1), 0)
                if q is not None:
                    q.note(loc, "equal")
                    out.append((q, ("c", eqv)))
            if lo is None or lo < 0:
                q = self.assume_le(st.fork(), d, -1)
                if q is not None:
                    q.note(loc, "differ")
                    out.append((q, ("c", not eqv)))
            if hi is None or hi > 0:
                q = self.assume_le(st.fork(), aff_scale(d, -1), -1)
                if q is not None:
                    q.note(loc, "differ")
                    out.append((q, ("c", not eqv)))
            return out
        if a[0] in ("f", "c", "l") and b[0] in ("f", "c", "l") and (a[0] == "f" or b[0] == "f" or (isconst(a) or a == NULL) and (isconst(b) or b == NULL)):
            if (a[0] == "l" and a[1]) or (b[0] == "l" and b[1]):
                out = []
                for s2, x in self.toint(st, a):
                    for s3, y in self.toint(s2, b):
                        if x[0] == "l" and y[0] == "l":
                            out += self.cmp(s3, op, x, y, node)
                        else:
                            out.append((s3, unk("compare")))
                return out
            fn = self.PY[op]
            if op in ("==", "!="):
                return self.map2(st, a, b, op, fn)

            def f2(x, y):
                try:
                    return fn(x, y)
                except TypeError:
                    return UNDEF
            return self.map2(st, a, b, op, f2)
        r = self.lib.compare(self, st, op, a, b, node)
        if r is not None:
            return r
        if a[0] == "ref" and b[0] == "ref":
            if op in ("==", "!="):
                if a == b:
                    return [(st, ("c", op == "=="))]
                if a[1] != b[1] or not a[2] or not b[2] or a[2][:-1] == b[2][:-1]:
                    if a[2] and b[2] and isinstance(a[2][-1], tuple) and isinstance(b[2][-1], tuple):
                        return [(st, ("c", self.PY[op](a[2][-1][1], b[2][-1][1])))]
                    return [(st, ("c", op == "!="))]
            elif a[1] == b[1] and a[2][:-1] == b[2][:-1] and a[2] and isinstance(a[2][-1], tuple) and isinstance(b[2][-1], tuple):
                return [(st, ("c", self.PY[op](a[2][-1][1], b[2][-1][1])))]
        if (a[0] in ("ref", "s", "fn", "lam") and b == NULL) or (b[0] in ("ref", "s", "fn", "lam") and a == NULL):
            return [(st, ("c", op == "!="))]
        return [(st, unk("compare %s %s" % (a[0], b[0])))]

    def add_int(self, a, b, sb=1):
        if a[0] == "l" and b[0] == "l":
            return aff_add(a, b, sb)
        return unk("add")

    def arith(self, st, op, a, b, t, node):
        if a[0] == "c" and isinstance(a[1], (bool, int)):
            a = I(int(a[1]))
        if b[0] == "c" and isinstance(b[1], (bool, int)):
            b = I(int(b[1]))
        if a[0] == "undef" or b[0] == "undef":
            return [(st, unk("undef"))]
        ty = self.p.ty(t)
        if a[0] == "l" and b[0] == "l":
            v = None
            if op == "+":
                v = aff_add(a, b)
            elif op == "-":
                v = aff_add(a, b, -1)
            elif op == "*":
                if not a[1]:
                    v = aff_scale(b, a[2])
                elif not b[1]:
                    v = aff_scale(a, b[2])
            elif not a[1] and not b[1]:
                v = self.constop(op, a[2], b[2])
                if v is None:
                    self.oblige("division", node, st, False, "division by zero")
                    return []
                v = I(v)
            if v is None:
                r = self.lib.arith_hook(self, st, op, a, b, t, node)
                if r is not None:
                    return r
                return [(st, self.opaque(st, op, a, b, ty))]
            if ty.get("cat") == "int" and not ty.get("signed") and op in ("-",):
                return self.wrap_unsigned(st, v, ty, node)
            return [(st, v)]
        if a[0] in ("f", "l") and b[0] in ("f", "l"):
            if (a[0] == "l" and a[1]) or (b[0] == "l" and b[1]):
                out = []
                for s2, x in self.toint(st, a):
                    for s3, y in self.toint(s2, b):
                        if x[0] == "l" and y[0] == "l":
                            out += self.arith(s3, op, x, y, t, node)
                        else:
                            out.append((s3, unk("arith")))
                return out
            return self.map2(st, a, b, ("op", op), lambda x, y: self.constop2(op, x, y, ty))
        r = self.lib.arith_hook(self, st, op, a, b, t, node)
        if r is not None:
            return r
        return [(st, unk("arith %s %s %s" % (a[0], op, b[0])))]

    def opaque(self, st, op, a, b, ty):
        """Result of a non-affine operation: a fresh symbol with what is known."""
        n = ("op", op, a, b)
        if op == "%" and not b[1] and b[2] > 0:
            lo, _ = self.bounds(st, a)
            st.dbm.add(n, Z, b[2] - 1)
            st.dbm.add(Z, n, 0 if lo is not None and lo >= 0 else b[2] - 1)
        elif op == "/" and not b[1] and b[2] > 0:
            lo, hi = self.bounds(st, a)
            if hi is not None:
                st.dbm.add(n, Z, hi // b[2])
            if lo is not None and lo >= 0:
                st.dbm.add(Z, n, -(lo // b[2]))
        elif op == "&" and not b[1] and b[2] >= 0:
            st.dbm.add(n, Z, b[2])
            st.dbm.add(Z, n, 0)
        return sym(n)

    def constop(self, op, x, y):
        try:
            if op == "/":
                q = abs(x) // abs(y)
                return q if (x >= 0) == (y >= 0) else -q
            if op == "%":
                return x - y * self.constop("/", x, y)
        except ZeroDivisionError:
            return None
        if op == "&":
            return x & y
        if op == "|":
            return x | y
        if op == "^":
            return x ^ y
        if op == "<<":
            return x << y
        if op == ">>":
            return x >> y
        if op == "+":
            return x + y
        if op == "-":
            return x - y
        if op == "*":
            return x * y
        return None

    def constop2(self, op, x, y, ty):
        x, y = int(x), int(y)
        v = self.constop(op, x, y)
        if v is None:
            return UNDEF
        if ty.get("cat") == "int" and not ty.get("signed") and v < 0:
            v += 1 << ty.get("bits", 64)
        return v

    def wrap_unsigned(self, st, v, ty, node):
        """Unsigned result that may have wrapped below zero."""
        if not v[1]:
            return [(st, I(v[2] % (1 << ty.get("bits", 64))))]
        lo = self.lo(st, v)
        if lo is not None and lo >= 0:
            return [(st, v)]
        out = []
        neg = self.assume_le(st.fork(), v, -1)
        pos = self.assume_le(st, aff_scale(v, -1), 0)
        if pos is not None:
            out.append((pos, v))
        if neg is not None:
            n = ("wrap", v)
            neg.dbm.add(Z, n, -(1 << (ty.get("bits", 64) - 1)))
            neg.note(self.where(node), "unsigned wrap-around")
            out.append((neg, sym(n)))
        return out

    def e_cast(self, st, e):
        ck = e["ck"]
        t = e["t"]
        out = []
        if ck == "ToVoid":
            return [(s2, VOID) for s2, _ in self.ev(st, e["e"])]
        if ck in ("NullToPointer",):
            return [(s2, NULL) for s2, _ in self.ev(st, e["e"])]
        ty = self.p.ty(t)
        for s2, v in self.ev(st, e["e"]):
            if ck in ("IntegralToBoolean", "PointerToBoolean"):
                if v[0] == "l" and v[1]:
                    out += self.cmp(s2, "!=", v, I(0), e)
                elif v[0] in ("ref", "s", "lam", "fn"):
                    out.append((s2, TRUE))
                elif v[0] in ("f", "c", "l"):
                    if v == NULL:
                        out.append((s2, FALSE))
                    else:
                        out.append((s2, self.map1(s2, v, "bool", lambda x: bool(x))))
                else:
                    out.append((s2, v))
            elif ck == "IntegralCast":
                out += self.icast(s2, v, e["e"].get("t"), ty, e)
            else:
                out.append((s2, v))
        return out

    def icast(self, st, v, ft, ty, e):
        c = ty.get("cat")
        if v[0] == "c":
            if isinstance(v[1], (bool, int)):
                v = I(int(v[1]))
            else:
                return [(st, v)]
        if c == "int" or c == "char" or c == "enum":
            bits = ty.get("bits", 32)
            sg = ty.get("signed", c == "enum")
            if c == "enum":
                bits, sg = 32, True
            lo_t = -(1 << (bits - 1)) if sg else 0
            hi_t = (1 << (bits - 1)) - 1 if sg else (1 << bits) - 1
            if v[0] == "l":
                if not v[1]:
                    x = v[2]
                    if not lo_t <= x <= hi_t:
                        x &= (1 << bits) - 1
                        if sg and x > hi_t:
                            x -= 1 << bits
                    return [(st, I(x))]
                if not sg and bits >= 32:
                    src = self.p.ty(ft) if ft else {}
                    if src.get("signed", True):
                        return self.wrap_unsigned(st, v, ty, e)
                if bits < 32:
                    lo, hi = self.bounds(st, v)
                    if lo is None or hi is None or lo < lo_t or hi > hi_t:
                        n = ("trunc", bits, v)
                        st.dbm.add(n, Z, hi_t)
                        st.dbm.add(Z, n, -lo_t)
                        return [(st, sym(n))]
                return [(st, v)]
            if v[0] == "f":
                def conv(x):
                    if not isinstance(x, (int, bool)):
                        return x
                    x = int(x)
                    if not lo_t <= x <= hi_t:
                        x &= (1 << bits) - 1
                        if sg and x > hi_t:
                            x -= 1 << bits
                    return x
                return [(st, self.map1(st, v, ("icast", bits, sg), conv))]
        return [(st, v)]

    def e_cond(self, st, e):
        t, f = self.cond(st, e["c"])
        out = []
        for s2 in t:
            out += self.ev(s2, e["a"])
        for s2 in f:
            out += self.ev(s2, e["b"])
        return self.merge_vals(out)

    def e_ilist(self, st, e):
        ty = self.p.ty(e["t"])
        out = []
        for s2, vs in self.evs(st, e["a"]):
            if ty.get("cat") == "arr":
                n = ty["n"]
                if len(vs) < n and vs and e.get("filler"):
                    vs = vs + [vs[-1] if False else self.zero_of(ty.get("to"))] * (n - len(vs))
                out.append((s2, ("A", tuple(vs))))
            elif ty.get("cat") == "rec":
                lay = self.layout(ty["name"])
                if lay is not None and len(lay) == len(vs):
                    out.append((s2, ("r", ty["name"], tuple(vs))))
                elif not vs:
                    out.append((s2, self.default_rec(s2, ty)))
                else:
                    out.append((s2, ("A", tuple(vs))))
            else:
                out.append((s2, vs[0] if vs else self.zero_of(e["t"])))
        return out

    def zero_of(self, t):
        c = self.p.cat(t)
        if c == "bool":
            return FALSE
        if c == "ptr":
            return NULL
        if c in ("int", "char", "enum"):
            return I(0)
        return unk("zero")

    def e_lambda(self, st, e):
        caps = []
        for c in e["caps"]:
            if c.get("this"):
                caps.append(("this", None, st.store.get(("this", self.depth), unk("this"))))
            elif "d" in c:
                d = c["d"]
                r = self.varref(st, d)
                if c.get("init") is not None:
                    vals = self.ev(st, c["init"])
                    caps.append(("val", d, vals[0][1]))
                elif c.get("byref"):
                    caps.append(("ref", d, r))
                else:
                    caps.append(("val", d, self.read(st, r)))
        return [(st, ("lam", e["f"]["id"], tuple(caps)))]

    def e_fref(self, st, e):
        return [(st, ("fn", e["f"]["id"], e["f"]["n"]))]

    def e_new(self, st, e):
        r = self.lib.new(self, st, e)
        if r is not None:
            return r
        return [(st, self.giveup(st, "new", e))]

    def e_delete(self, st, e):
        out = []
        for s2, v in self.ev(st, e["e"]):
            self.lib.delete(self, s2, v, e)
            out.append((s2, VOID))
        return out

    def e_throw(self, st, e):
        t = "rethrow"
        if e.get("e"):
            t = self.p.ty(e["e"].get("t", "?")).get("name", "?")
            for s2, _ in self.ev(st, e["e"]):
                self.throw(s2, t, e)
            return []
        self.throw(st, t, e)
        return []

    def e_unk(self, st, e):
        if e.get("cls") in ("SourceLocExpr", "PredefinedExpr"):
            return [(st, S("src"))]
        if e.get("cls") == "UnaryExprOrTypeTraitExpr":
            return [(st, I(8))]
        return [(st, self.giveup(st, "expression " + str(e.get("cls")), e))]

    def e_stmtexpr(self, st, e):
        r = self.run([st], e["s"])
        return [(q, UNK) for q in r.n]

    def e_ctor(self, st, e):
        return self.construct(st, e)

    # ------------------------------------------------------------------
    # lvalues
    def varref(self, st, d):
        if d in self.statics and ("v", self.depth, d) not in st.store:
            return ("ref", ("sl", d), ())
        root = ("v", self.depth, d)
        if d in self.refvars:
            return st.store.get(root, unk("unbound reference"))
        return ("ref", root, ())

    def lv(self, st, e):
        k = e["k"]
        if k == "ref":
            if "gi" in e:
                return [(st, ("ref", ("g", e["gi"]), ()))]
            d = e["d"]
            if d in self.statics:
                root = ("sl", d)
                if root not in st.store:
                    v = self.staticval(d)
                    if d in self.refvars and v[0] == "ref":
                        return [(st, v)]
                return [(st, ("ref", root, ()))]
            return [(st, self.varref(st, d))]
        if k == "mem":
            out = []
            if e["arrow"]:
                for s2, p in self.ev(st, e["b"]):
                    for s3, r in self.deref(s2, p, e):
                        out.append((s3, ("ref", r[1], r[2] + (e["f"],)) if r[0] == "ref" else unk("member of unknown")))
            else:
                for s2, r in self.lv(st, e["b"]):
                    out.append((s2, ("ref", r[1], r[2] + (e["f"],)) if r[0] == "ref" else unk("member of unknown")))
            return out
        if k == "un" and e["op"] == "*":
            out = []
            for s2, p in self.ev(st, e["e"]):
                for s3, r in self.deref(s2, p, e):
                    out.append((s3, r))
            return out
        if k == "un" and e["op"] in ("++", "--"):
            return [(s2, self.lv(s2, e["e"])[0][1]) for s2, _ in self.ev(st, e)]
        if k == "bin" and (e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">=")):
            return [(s2, self.lv(s2, e["a"])[0][1]) for s2, _ in self.ev(st, e)]
        if k == "idx":
            out = []
            for s2, (b, i) in self.idxparts(st, e):
                c = const(i)
                if b[0] == "ref" and c is not None:
                    v = self.read(s2, b)
                    if v[0] == "A":
                        ok = 0 <= c < len(v[1])
                        self.oblige("array-bounds", e, s2, ok, "index %d outside the %d-element array" % (c, len(v[1])))
                        if ok:
                            out.append((s2, ("ref", b[1], b[2] + (("i", c),))))
                        continue
                for s3, v in self.index(s2, b, i, e):
                    out.append((s3, self.temp(s3, e, v)))
            return out
        if k == "cond":
            t, f = self.cond(st, e["c"])
            out = []
            for s2 in t:
                out += self.lv(s2, e["a"])
            for s2 in f:
                out += self.lv(s2, e["b"])
            return out
        if k in ("call", "mcall"):
            f = e.get("f")
            if f and f["rt"].startswith("&"):
                return self.call_lv(st, e)
        if k == "cast" and e["ck"] in ("NoOp", "BaseToDerived", "DerivedToBase", "Dynamic") and e["e"]["k"] in ("ref", "mem", "un", "idx"):
            return self.lv(st, e["e"])
        if k == "bin" and e["op"] == ",":
            out = []
            for s2, _ in self.ev(st, e["a"]):
                out += self.lv(s2, e["b"])
            return out
        out = []
        for s2, v in self.ev(st, e):
            out.append((s2, self.temp(s2, e, v)))
        return out

    def temp(self, st, e, v):
        i = e.get("_i")
        if i is None:
            self._tmpn = getattr(self, "_tmpn", 0) + 1
            i = e["_i"] = self._tmpn
        root = ("t", self.depth, i)
        st.store[root] = v
        return ("ref", root, ())

    def deref(self, st, p, node):
        """Dereference pointer-like p: [(st, ref)]."""
        if p[0] == "ref":
            return [(st, p)]
        if p == NULL or (p[0] == "l" and p == I(0)):
            self.oblige("null-deref", node, st, False, "dereferences a null pointer")
            return []
        r = self.lib.deref(self, st, p, node)
        if r is not None:
            return r
        return [(st, unk("deref %s" % p[0]))]

    # ------------------------------------------------------------------
    # globals and statics
    statics = {}
    refvars = set()

    def globalval(self, gi):
        v = self.gcache.get(("g", gi))
        if v is None:
            var = self.p.vars.get(gi)
            if var is None or "init" not in var:
                v = unk("global " + gi)
                if gi.endswith("@npos"):
                    v = I((1 << 64) - 1)
                if var is not None and self.p.cat(var["t"]) == "rec":
                    v = self.default_rec(St(), self.p.ty(var["t"]))
            elif not var.get("const") and not self.lib.const_like(self, var):
                v = self.fresh(St(), var["t"], ("global", gi))
            else:
                v = self.evalconst(var["init"])
            self.gcache[("g", gi)] = v
        return v

    def staticval(self, d):
        v = self.gcache.get(("sl", d))
        if v is None:
            var = self.statics[d]
            if var["t"].startswith("const ") or var["t"].startswith("&const"):
                v = self.evalconst(var["init"]) if "init" in var else unk("static")
            else:
                v = self.fresh(St(), var["t"], ("static", d)) if "init" in var else unk("mutable static")
            self.gcache[("sl", d)] = v
        return v

    def evalconst(self, e):
        st = St()
        d = self.depth
        self.depth += 1
        try:
            r = self.ev(st, e)
        finally:
            self.depth = d
        if len(r) == 1:
            v = r[0][1]
            return v
        return unk("constant initialiser")

    # ------------------------------------------------------------------
    # calls
    def e_call(self, st, e):
        out = []
        for s2, r in self.docall(st, e):
            if e.get("f") and e["f"]["rt"].startswith("&") and r[0] == "ref":
                r = self.read(s2, r)
                if r[0] == "uninit":
                    r = unk("uninit")
            out.append((s2, r))
        return out

    e_mcall = e_call

    def call_lv(self, st, e):
        out = []
        for s2, r in self.docall(st, e):
            if r[0] != "ref":
                r = self.temp(s2, e, r)
            out.append((s2, r))
        return out

    def docall(self, st, e):
        f = e.get("f")
        if f is None:
            # call through a value
            out = []
            for s2, c in self.ev(st, e["cal"]):
                for s3, args in self.args(s2, e["a"], None):
                    if c[0] == "fn" and c[1] in self.p.fns:
                        out += self.invoke(s3, self.p.fns[c[1]], args, None, e)
                    elif c[0] == "fn" and c[2] in self.hooks:
                        r = self.hooks[c[2]](self, s3, e, None, args, {"n": c[2], "rt": e.get("t", "?"), "pt": []})
                        out += r if r is not None else [(s3, unk("call"))]
                    elif c[0] == "lam":
                        out += self.invoke_lam(s3, c, args, e)
                    else:
                        out.append((s3, self.giveup(s3, "indirect call", e)))
            return out
        name = f["n"]
        if name == "__assert_fail":
            self.oblige("assert", e, st, False, "assertion can fail")
            return []
        if e["k"] == "mcall":
            outs = []
            if e.get("arrow"):
                objs = []
                for s2, p in self.ev(st, e["o"]):
                    objs += self.deref(s2, p, e)
            else:
                objs = self.lv(st, e["o"])
            for s2, o in objs:
                for s3, args in self.args(s2, e["a"], f["pt"]):
                    outs += self.dispatch_method(s3, e, f, o, args)
            return outs
        outs = []
        for s2, args in self.args(st, e["a"], f["pt"]):
            h = self.hooks.get(name)
            if h is not None:
                r = h(self, s2, e, None, args, f)
                if r is not None:
                    outs += r
                    continue
            fn = self.p.fns.get(f["id"])
            if fn is None:
                fn = self.lookup_fn(f)
            if fn is not None:
                outs += self.invoke(s2, fn, args, None, e)
                continue
            r = self.lib.call(self, s2, e, f, args)
            if r is not None:
                outs += r
                continue
            outs.append((s2, self.unknown_call(s2, e, f, args)))
        return outs

    def lookup_fn(self, f):
        """Resolve a declaration without a body in its unit by name and type."""
        if f["n"].startswith("std::"):
            return None
        for g in self.p.byname.get(f["n"], ()):
            if g["f"]["pt"] == f["pt"] and g["f"].get("crec") == f.get("crec"):
                return g
        return None

    def dispatch_method(self, st, e, f, o, args):
        name = f["n"]
        # lambda objects
        if f.get("lambda"):
            v = self.read(st, o)
            if v[0] == "lam":
                return self.invoke_lam(st, v, args, e)
        target = f
        if f.get("virtual") and not e.get("qual"):
            v = self.read(st, o)
            if v[0] == "r":
                m = self.p.overrider(v[1], f["id"])
                if m is not None:
                    fn = self.p.fns.get(m["id"])
                    if fn is not None:
                        target = fn["f"]
        name = target["n"]
        h = self.hooks.get(name)
        if h is not None:
            r = h(self, st, e, o, args, target)
            if r is not None:
                return r
        fn = self.p.fns.get(target["id"])
        if fn is None:
            fn = self.lookup_fn(target)
        if fn is not None:
            return self.invoke(st, fn, args, o, e)
        r = self.lib.method(self, st, e, target, o, args)
        if r is not None:
            return r
        return [(st, self.unknown_call(st, e, target, args, o))]

    def unknown_call(self, st, e, f, args, obj=None):
        for i, a in enumerate(args):
            t = f["pt"][i] if i < len(f["pt"]) else ""
            if a[0] == "ref" and (t.startswith("&") and not t.startswith("&const") or self.p.cat(t) == "ptr"):
                self.write(st, a, unk("written by " + f["n"]))
        if obj is not None and obj[0] == "ref" and not f.get("const"):
            self.write(st, obj, unk("modified by " + f["n"]))
        return self.giveup(st, "call " + f["n"], e)

    def args(self, st, es, pts):
        """Evaluate arguments; reference parameters receive refs."""
        out = [(st, [])]
        for i, e in enumerate(es):
            byref = pts is not None and i < len(pts) and pts[i].startswith("&")
            nxt = []
            for s2, vs in out:
                if e is None:
                    nxt.append((s2, vs + [unk("arg")]))
                    continue
                if byref:
                    for s3, r in self.lv(s2, e):
                        nxt.append((s3, vs + [r]))
                else:
                    for s3, v in self.ev(s2, e):
                        if v[0] == "undef":
                            v = unk("undef")
                        nxt.append((s3, vs + [v]))
            out = nxt
        return out

    def val(self, st, a):
        """Value of an argument that may be a reference."""
        return self.read(st, a) if a[0] == "ref" else a

    def invoke(self, st, fn, args, this, node, lam=None):
        if self.depth > self.MAXDEPTH or self.callstack.count(fn["name"]) >= 3:
            self.giveup(st, "recursion " + fn["name"], node)
            st.taint = st.taint or "recursion"
            return [(st, unk("recursion"))]
        self.fnseen[fn["id"]] = self.fnseen.get(fn["id"], 0) + 1
        if self.usepure and this is None and lam is None:
            r = self.pure_call(st, fn, args)
            if r is not None:
                return r
        self.depth += 1
        d = self.depth
        if this is not None:
            st.store[("this", d)] = this
        for p, a in zip(fn["ps"], args):
            if p["t"].startswith("&"):
                self.refvars.add(p["d"])
                if a[0] != "ref":
                    st.store[("t", d, ("arg", p["d"]))] = a
                    a = ("ref", ("t", d, ("arg", p["d"])), ())
            else:
                if a[0] == "ref" and self.p.cat(p["t"]) not in ("ptr",):
                    a = self.read(st, a)
                a = self.coerce(st, a, p["t"])
            st.store[("v", d, p["d"])] = a
        if lam is not None:
            for kind, dd, v in lam[2]:
                if kind == "this":
                    st.store[("this", d)] = v
                elif kind == "ref":
                    self.refvars.add(dd)
                    st.store[("v", d, dd)] = v
                else:
                    st.store[("v", d, dd)] = v
        self.callstack.append(fn["name"])
        self.retref = self.retref + [fn["rt"].startswith("&")]
        states = [st]
        try:
            if fn.get("ctor"):
                states = self.run_inits(states, fn)
            r = self.run(states, fn["b"])
        finally:
            self.callstack.pop()
            self.retref = self.retref[:-1]
            self.depth -= 1
        outs = []
        for s2, v in r.r:
            outs.append((s2, v))
        for s2 in r.n:
            outs.append((s2, VOID))
        if r.g:
            for n, sts in r.g.items():
                self.giveup(sts[0], "unresolved goto " + n, node)
        res = []
        for s2, v in outs:
            if self.seq and self.seq.onreturn:
                self.seq.onreturn(s2, d)
            self.popframe(s2, d, v)
            res.append((s2, v))
        if self.seq:
            return self.seq.returned(res, fn)
        return self.merge_vals(res)

    # Functions of plain scalars are tabulated: evaluated once per combination
    # of argument values, with everything they touch watched.
    usepure = False
    SCALAR = ("bool", "enum", "char", "int")

    def pure_call(self, st, fn, args):
        ok = fn.get("_scalar")
        if ok is None:
            ok = fn["_scalar"] = bool(fn["ps"]) and fn["b"] is not None and not fn.get("ctor") and all(
                self.p.cat(x) in self.SCALAR and not x.startswith("&") for x in [p["t"] for p in fn["ps"]] + [fn["rt"]])
        if not ok or len(args) != len(fn["ps"]):
            return None
        vals = []
        syms = []
        for p, a in zip(fn["ps"], args):
            if a[0] == "ref":
                a = self.read(st, a)
            a = self.coerce(st, a, p["t"])
            a = self.norm(st, a)
            if a[0] == "f":
                if a[1] not in syms:
                    syms.append(a[1])
            elif const(a) is None:
                return None
            vals.append(a)
        return self.pure_sub(st, fn, vals, syms)

    def pure_sub(self, st, fn, vals, syms):
        if not syms:
            r = self.pure_const(fn, tuple(const(a) for a in vals))
            return None if r is None else [(st, r[0])]
        if len(syms) == 1:
            s = syms[0]
            u = [a for a in vals if a[0] == "f"][0][2].uni
            m = st.dom.get(s, u.full)
            key = ("pure", fn["id"], tuple(a[2] if a[0] == "f" else const(a) for a in vals), m)
            fm = self.puretab.get(key)
            if fm is None:
                out = []
                for i in range(len(u.atoms)):
                    if not m >> i & 1:
                        out.append(UNDEF)
                        continue
                    r = self.pure_const(fn, tuple(a[2].vals[i] if a[0] == "f" else const(a) for a in vals))
                    if r is None:
                        return None
                    out.append(self.unlift(r[0]))
                fm = self.puretab[key] = fmap(u, tuple(out))
            return [(st, self.norm(st, ("f", s, fm)))]
        # several symbols: part the state by the symbol with the fewest rows
        imgs = {}
        for s in syms:
            u = [a for a in vals if a[0] == "f" and a[1] == s][0][2].uni
            m = st.dom.get(s, u.full)
            rows = {}
            for i in range(len(u.atoms)):
                if m >> i & 1:
                    k = tuple(a[2].vals[i] for a in vals if a[0] == "f" and a[1] == s)
                    rows[k] = rows.get(k, 0) | 1 << i
            imgs[s] = rows
        s = min(syms, key=lambda x: len(imgs[x]))
        rest = [x for x in syms if x != s]
        combos = [()]
        for x in rest:
            combos = [c + ((x, k),) for c in combos for k in imgs[x]]
        if len(combos) * len(imgs[s]) > 4000:
            return None
        groups = {}
        for k, m in imgs[s].items():
            sig = []
            for c in combos:
                env = dict(c)
                env[s] = k
                at = dict.fromkeys(env, 0)
                tup = []
                for a in vals:
                    if a[0] == "f":
                        tup.append(env[a[1]][at[a[1]]])
                        at[a[1]] += 1
                    else:
                        tup.append(const(a))
                r = self.pure_const(fn, tuple(tup))
                if r is None:
                    return None
                sig.append(r[0])
            g = groups.setdefault(tuple(sig), [0, k])
            g[0] |= m
        out = []
        for m, k in groups.values():
            s2 = st.fork()
            s2.dom[s] = m
            it = iter(k)
            v2 = [self.lift(next(it)) if a[0] == "f" and a[1] == s else a for a in vals]
            r = self.pure_sub(s2, fn, v2, rest)
            if r is None:
                return None
            out += r
        return out

    def pure_const(self, fn, vals):
        key = (fn["id"], vals, tuple(type(v) for v in vals))
        if key in self.pureval:
            return self.pureval[key]
        if any(isinstance(v, Undef) for v in vals):
            return None
        saved = self.oblig, self.findings, self.unresolved, self.unmodelled, self.thrown, self.lossy
        self.oblig, self.findings, self.unresolved, self.unmodelled, self.thrown = {}, {}, {}, {}, [[]]
        self.usepure = False
        st = St()
        try:
            r = self.invoke(st, fn, [self.lift(v) for v in vals], None, {"l": "?"})
            bad = self.findings or self.unresolved or self.unmodelled or self.thrown[0]
            got = self.oblig
        finally:
            self.oblig, self.findings, self.unresolved, self.unmodelled, self.thrown, self.lossy = saved
            self.usepure = True
        res = None
        if not bad and len(r) == 1:
            s2, v = r[0]
            left = [x for x in s2.store if x[0] not in ("v", "t", "this", "el", "exc")]
            if not left and not s2.taint and v[0] in ("c", "l") and (const(v) is not None or v == NULL) and not s2.dom:
                res = (v,)
                for k, n in got.items():
                    o = self.oblig.setdefault(k, [0, 0, 0])
                    o[0] += n[0]
        self.pureval[key] = res
        return res

    def popframe(self, st, d, v):
        keep = None
        if v[0] == "ref" and v[1][0] in ("v", "t", "el") and v[1][1] >= d:
            keep = v[1]
        for root in [r for r in st.store if (r[0] in ("v", "t", "this", "el", "exc") and r[1] >= d)]:
            if root != keep:
                del st.store[root]

    def invoke_lam(self, st, lam, args, node):
        fn = self.p.fns.get(lam[1])
        if fn is None:
            return [(st, self.giveup(st, "lambda body", node))]
        # by-value captures that alias outer variables in the same decl ids
        return self.invoke(st, fn, args, None, node, lam)

    def run_inits(self, states, fn):
        cls = fn["f"]["crec"]
        for init in fn.get("inits", ()):
            nxt = []
            for st in states:
                this = st.store.get(("this", self.depth))
                if init.get("m"):
                    if self.p.cat(init["mt"]) != "rec" and init["mt"].startswith("&"):
                        for s2, r in self.lv(st, init["e"]):
                            self.write(s2, ("ref", this[1], this[2] + (init["m"],)), r)
                            nxt.append(s2)
                        continue
                    for s2, v in self.ev(st, init["e"]):
                        if v[0] == "undef":
                            v = unk("undef")
                        self.write(s2, ("ref", this[1], this[2] + (init["m"],)), self.coerce(s2, v, init["mt"]))
                        nxt.append(s2)
                else:
                    # base or delegating constructor runs on the same object
                    e = init["e"]
                    if e and e["k"] == "ctor":
                        for s2, args in self.args(st, e["a"], e["f"]["pt"]):
                            nxt += self.construct_at(s2, e, this, args)
                    else:
                        nxt.append(st)
            states = nxt
        return states

    def construct_at(self, st, e, this, args):
        """Run constructor e on the existing object `this`."""
        fn = self.p.fns.get(e["f"]["id"]) or self.lookup_fn(e["f"])
        h = self.hooks.get(e["f"]["n"])
        if h is not None:
            r = h(self, st, e, this, args, e["f"])
            if r is not None:
                out = []
                for s2, v in r:
                    if v != VOID:
                        self.write(s2, this, v)
                    out.append(s2)
                return out
        if fn is not None:
            return [s2 for s2, _ in self.invoke(st, fn, args, this, e)]
        return [st]

    def construct(self, st, e):
        f = e["f"]
        ty = self.p.ty(e["t"])
        cls = ty.get("name")
        out = []
        for s2, args in self.args(st, e["a"], f["pt"]):
            out += self.construct_val(s2, e, f, ty, args)
        return out

    def construct_val(self, st, e, f, ty, args):
        cls = ty.get("name")
        h = self.hooks.get(f["n"])
        if h is not None:
            r = h(self, st, e, None, args, f)
            if r is not None:
                return r
        r = self.lib.construct(self, st, e, f, ty, args)
        if r is not None:
            return r
        if cls not in self.p.recs:
            return [(st, self.giveup(st, "construct " + str(cls), e))]
        if (e.get("copy") or e.get("move")) and args:
            src = self.val(st, args[0])
            if src[0] not in ("r",) or self.copy_faithful(f, cls):
                return [(st, src)]
        fn = self.p.fns.get(f["id"]) or self.lookup_fn(f)
        base = self.default_rec(st, ty)
        if fn is None:
            if f.get("defaulted") or f.get("implicit"):
                if args and (e.get("copy") or e.get("move")):
                    return [(st, self.val(st, args[0]))]
                return [(st, base)]
            return [(st, self.giveup(st, "constructor " + f["n"], e))]
        root = ("t", self.depth, ("obj", e.setdefault("_i2", self.newname("c"))))
        st.store[root] = base
        this = ("ref", root, ())
        res = []
        for s2, _ in self.invoke(st, fn, args, this, e):
            v = s2.store.pop(root)
            res.append((s2, v))
        return self.merge_vals(res)

    def copy_faithful(self, f, cls):
        """Does this copy/move constructor reproduce every field of its source?"""
        k = f["id"]
        r = self.faithful.get(k)
        if r is None:
            fn = self.p.fns.get(f["id"]) or self.lookup_fn(f)
            if fn is None:
                r = True
            else:
                self.faithful[k] = False
                st = St()
                d = self.depth
                self.depth += 1
                try:
                    src = ("r", cls, tuple(unk(("copysrc", cls, x)) for x in self.layout(cls)))
                    sroot, droot = ("t", self.depth, "src"), ("t", self.depth, "dst")
                    st.store[sroot] = src
                    st.store[droot] = self.default_rec(st, self.p.ty(cls))
                    saved = (dict(self.unresolved), dict(self.unmodelled), self.hooks)
                    res = self.invoke(st, fn, [("ref", sroot, ())], ("ref", droot, ()), {"l": "?"})
                    self.unresolved, self.unmodelled = saved[0], saved[1]
                    r = len(res) == 1 and res[0][0].store.get(droot) == src
                finally:
                    self.depth = d
            self.faithful[k] = r
        return r
