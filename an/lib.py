"""Models of the standard library and of the C libraries the program uses.

Every function returns None when it does not know the construct; the engine
then treats the call as unknown (its results taint the state and can only
lead to unresolved obligations, never to a verdict).
"""
from dom import I, sym, aff_add, aff_scale, Z, UNDEF, Undef
from prog import AnalysisBroken

VOID = ("void",)
NULL = ("c", None)
TRUE = ("c", True)
FALSE = ("c", False)
NPOS = (1 << 64) - 1

SEQ = ("std::list", "std::vector", "std::deque", "std::initializer_list", "std::forward_list", "std::array")
SETS = ("std::unordered_set", "std::set")
MAPS = ("std::unordered_map", "std::map")
MMAPS = ("std::multimap", "std::unordered_multimap")
STRS = ("std::basic_string", "std::basic_string_view")


def unk(w):
    return ("unk", w)


def base(cls):
    cls = cls or ""
    i = cls.find("<")
    if i >= 0:
        cls = cls[:i]
    return cls.replace("std::__cxx11::", "std::")


def isstr(v):
    return v[0] in ("s", "txt")


def install(eng):
    for name, pred in WC.items():
        def h(e, st, node, obj, args, f, pred=pred, name=name):
            v = e.val(st, args[0])
            return [(st, e.map1(st, v, ("wc", name), lambda x: 1 if pred(x) else 0))]
        eng.hooks["th_wc" + name] = h
    eng.hooks["abort"] = lambda e, st, node, obj, args, f: []
    eng.hooks["exit"] = do_exit


def do_exit(eng, st, node, obj, args, f):
    if eng.on_exit:
        eng.on_exit(eng, st, node, args)
    return []


# character classes of libthai (measured once against the installed library)
def _in(*rs):
    s = set()
    for r in rs:
        if isinstance(r, tuple):
            s |= set(range(r[0], r[1] + 1))
        else:
            s.add(r)
    fs = frozenset(s)
    return lambda x: x in fs


CONS = _in((0xE01, 0xE23), 0xE25, (0xE27, 0xE2E))
WC = {
    "isthcons": CONS,
    "isthvowel": _in(0xE24, 0xE26, (0xE30, 0xE39), (0xE40, 0xE45)),
    "isthtone": _in((0xE48, 0xE4B)),
    "isldvowel": _in((0xE40, 0xE44)),
    "isupvowel": _in(0xE31, (0xE34, 0xE37)),
    "isblvowel": _in(0xE38, 0xE39),
    "isflvowel": _in(0xE24, 0xE26, 0xE30, 0xE32, 0xE33, 0xE45),
    "isthdiac": _in(0xE3A, 0xE47, (0xE4C, 0xE4E)),
    "isthdigit": _in((0x30, 0x39), (0xE50, 0xE59)),
    "isthpunct": _in((0x21, 0x2F), (0x3A, 0x40), (0x5B, 0x60), (0x7B, 0x7E), 0xE2F, 0xE3F, 0xE46, 0xE4F, 0xE5A, 0xE5B),
    "isthai": _in((0xE01, 0xE3A), (0xE3F, 0xE5B)),
}


# -- values ------------------------------------------------------------------
def default_std(eng, st, ty):
    b = base(ty.get("name"))
    if b in ("std::list", "std::vector", "std::deque", "std::forward_list"):
        return ("A", ())
    if b in SETS:
        return ("S", frozenset())
    if b in MAPS:
        return ("M", ())
    if b in MMAPS:
        return ("Q", ty["name"], I(0), "empty")
    if b in STRS:
        return ("s", ())
    if b in ("std::unique_ptr", "std::shared_ptr"):
        return NULL
    if b == "std::array":
        return None
    h = eng.typedefaults.get(ty.get("name")) if hasattr(eng, "typedefaults") else None
    if h is not None:
        return h
    return None


def fresh_std(eng, st, ty, name):
    b = base(ty.get("name"))
    if b in STRS:
        n = ("len", name)
        st.dbm.add(Z, n, 0)
        return ("s", (("ext", name),))
    if b in SEQ or b in MMAPS:
        n = ("len", name)
        st.dbm.add(Z, n, 0)
        return ("Q", ty["name"], sym(n), name)
    if b in ("std::unique_ptr", "std::shared_ptr"):
        return unk("pointer")
    return None


def const_like(eng, var):
    t = var["t"]
    return t.startswith("const ") or t.startswith("&const")


def seq_view(eng, st, ref, v):
    """Sequence of elements of a container value."""
    if v[0] == "S":
        return ("A", tuple(eng.lift(x) for x in sorted(v[1])))
    if v[0] == "M":
        return ("A", tuple(("r", "std::pair<>", (eng.lift(k), x)) for k, x in v[1]))
    if v[0] == "r":
        # class with begin()/end() over a single container member
        q = [x for x in v[2] if x[0] in ("A", "L", "Q", "gl", "T")]
        if len(q) == 1:
            return q[0]
    if v[0] == "s":
        from engine import strconst
        c = strconst(v)
        if c is not None:
            return ("A", tuple(I(x) for x in c))
        if eng.seq is not None:
            return eng.seq.chars(st, v) or v
    return v


def seq_ref(eng, st, ref, v):
    if v[0] == "r":
        lay = eng.layout(v[1])
        for i, x in enumerate(v[2]):
            if x[0] in ("A", "L", "Q"):
                return ("ref", ref[1], ref[2] + (lay[i],))
    return ref


def elem_type(eng, v):
    ta = eng.p.ty(v[1]).get("targs") or []
    return ta


def elem_of(eng, st, c, name):
    """A representative element of an unknown sequence."""
    if c[0] == "Q":
        h = getattr(eng, "elem_hook", None)
        if h:
            r = h(eng, st, c, name)
            if r is not None:
                return r
        ta = elem_type(eng, c)
        b = base(c[1])
        if b in MMAPS and len(ta) >= 2:
            return ("r", "std::pair<>", (eng.fresh(st, ta[0], (name, "first")), eng.fresh(st, ta[1], (name, "second"))))
        if ta:
            return eng.fresh(st, ta[0], name)
    if c[0] == "txt":
        return ("f", ("anych", c[1], name), eng.charuni().ident)
    if c[0] == "s":
        return unk("char")
    return None


def project(eng, st, v, el):
    if v[0] in ("S", "M") and isinstance(el, tuple) and el[0] == "i":
        sv = seq_view(eng, st, None, v)
        if 0 <= el[1] < len(sv[1]):
            return sv[1][el[1]]
    if v[0] == "exc":
        return v
    if v[0] == "s" and isinstance(el, tuple) and el[0] == "i":
        from engine import strconst
        c = strconst(v)
        if c is not None and 0 <= el[1] < len(c):
            return I(c[el[1]])
    return None


# -- indexing ------------------------------------------------------------------
def charat(eng, st, txt, i):
    """Character symbol of the text at affine index i."""
    i = canon(eng, st, i)
    if ("ch", txt[1], i) not in st.dom:
        # the same place under another name?
        for s in st.dom:
            if s[0] == "ch" and s[1] == txt[1] and s[2][1] != i[1]:
                d = aff_add(s[2], i, -1)
                if eng.hi(st, d) == 0 and eng.lo(st, d) == 0:
                    i = s[2]
                    break
    return eng.norm(st, ("f", ("ch", txt[1], i), eng.charuni().ident))


def canon(eng, st, i):
    if len(i[1]) == 1 and i[1][0][1] == 1:
        s = i[1][0][0]
        for t in eng.canon_order:
            if t == s:
                break
            c = st.dbm.get(s, t)
            if c is not None and st.dbm.get(t, s) == -c:
                return ("l", ((t, 1),), i[2] + c) if t != Z else I(i[2] + c)
    return i


def text_at(eng, st, v, i, e, throwing):
    """v.at(i) / v[i] on the input text."""
    if i[0] == "f":
        out = []
        for s2, c in eng.split(st, i):
            out += text_at(eng, s2, v, I(int(c)), e, throwing)
        return out
    if i[0] != "l":
        return [(st, unk("index"))]
    n = sym(v[2])
    out = []
    res = eng.cmp(st, "<", i, n, None)
    for s2, b in res:
        if b[1]:
            out.append((s2, charat(eng, s2, v, i)))
        else:
            # operator[] may be applied at the terminator
            if not throwing:
                z = eng.cmp(s2, "==", i, n, None)
                rest = []
                for s3, b2 in z:
                    if b2[1]:
                        out.append((s3, I(0)))
                    else:
                        rest.append(s3)
                for s3 in rest:
                    eng.oblige("text-bounds", e, s3, False, "reads the text past its end (index %s)" % eng.affname(i))
                continue
            if throwing:
                eng.throw(s2, "std::out_of_range", e)
    if not any(not b[1] for _, b in res):
        eng.oblige("text-bounds", e, st, True)
    return out


def index(eng, st, b, v, i, e):
    if v[0] == "txt":
        return text_at(eng, st, v, i, e, False)
    if v[0] == "Q":
        if i[0] == "l" and v[2][0] == "l":
            r = eng.cmp(st, "<", i, v[2], None)
            bad = [s2 for s2, x in r if not x[1]]
            eng.oblige("array-bounds", e, bad[0] if bad else st, not bad, "index may reach the size of the sequence")
            out = []
            for s2, x in r:
                if x[1]:
                    el = elem_of(eng, s2, v, ("at", v[3], canon(eng, s2, i)))
                    out.append((s2, el if el is not None else unk("element")))
            return out
    if v[0] == "s":
        from engine import strconst, const
        c = strconst(v)
        k = const(i)
        if c is not None and i[0] == "f":
            n = len(c)
            m = eng.map1(st, i, ("sidx", c), lambda x: (c[x] if x < n else 0) if 0 <= x <= n else UNDEF)
            if m[0] == "f" and any(isinstance(x, Undef) for x in m[2].image(st.dom.get(m[1], m[2].uni.full))):
                eng.oblige("string-bounds", e, st, False, "index outside the string")
            return [(st, m)]
        if c is not None and k is not None:
            if 0 <= k < len(c):
                eng.oblige("string-bounds", e, st, True)
                return [(st, I(c[k]))]
            if k == len(c):
                return [(st, I(0))]
            eng.oblige("string-bounds", e, st, False, "index %d outside a string of %d" % (k, len(c)))
            return []
        h = getattr(eng, "str_index", None)
        if h:
            r = h(eng, st, v, i, e)
            if r is not None:
                return r
        if k is not None and k >= 0:
            out = []
            for s2, head, tail in cut(eng, st, v, k):
                c = first_char(eng, s2, tail)
                if c is None:
                    return [(st, unk("char"))]
                eng.oblige("string-bounds", e, s2, True)
                out.append((s2, c))
            if out:
                return out
        return [(st, unk("char"))]
    return None


def cut(eng, st, v, k):
    """Split string v after k characters: [(st, head pieces, tail pieces)];
    [] when the place cannot be determined."""
    out = []
    work = [(st, (), v[1], k)]
    while work:
        s, head, rest, n = work.pop()
        if n == 0:
            out.append((s, head, rest))
            continue
        if not rest:
            return []
        p = rest[0]
        if p[0] == "k":
            if len(p[1]) <= n:
                work.append((s, head + (p,), rest[1:], n - len(p[1])))
            else:
                work.append((s, head + (("k", p[1][:n]),), (("k", p[1][n:]),) + rest[1:], 0))
        elif p[0] == "chv":
            work.append((s, head + (p,), rest[1:], n - 1))
        elif p[0] == "f":
            d = s.dom.get(p[1], p[2].uni.full)
            lens = {}
            for i, x in enumerate(p[2].vals):
                if d >> i & 1:
                    lens[len(x)] = lens.get(len(x), 0) | 1 << i
            for ln, m in lens.items():
                q = s if len(lens) == 1 else s.fork()
                if len(lens) > 1:
                    q.dom[p[1]] = m
                if ln <= n:
                    work.append((q, head + (p,), rest[1:], n - ln))
                else:
                    a = eng.map1(q, ("f", p[1], p[2]), ("head", n), lambda x: x[:n])
                    b = eng.map1(q, ("f", p[1], p[2]), ("tail", n), lambda x: x[n:])
                    work.append((q, head + (fpiece(a),), (fpiece(b),) + rest[1:], 0))
        else:
            return []
    return out


def fpiece(v):
    if v[0] == "f":
        return v
    return ("k", v[1])


def first_char(eng, st, pieces):
    for p in pieces:
        if p[0] == "k":
            if p[1]:
                return I(p[1][0])
        elif p[0] == "chv":
            return p[1]
        elif p[0] == "f":
            im = p[2].image(st.dom.get(p[1], p[2].uni.full))
            if all(im):
                return eng.map1(st, p, "first", lambda x: x[0])
            if any(im):
                return None
        else:
            return None
    return I(0)


# -- comparison ----------------------------------------------------------------
def compare(eng, st, op, a, b, node):
    ka, kb = a[0], b[0]
    if ka in ("git", "gend"):
        return eng.seq.compare(st, op, a, b, node)
    if ka == "fit" or kb == "fit":
        if ka != "fit":
            a, b = b, a
        if b[0] in ("end", "fit", "it") and op in ("==", "!="):
            if b[0] == "fit":
                return None
            # end iff not found
            return [(st, eng.map1(st, a[2], ("found", op), lambda x: (not x) if op == "==" else bool(x)))]
    if ka == "it" and kb == "it":
        if a[1] == b[1] and op in ("==", "!=", "<"):
            return [(st, ("c", eng.PY[op](a[2], b[2])))]
    if ka == "itq" or kb == "itq":
        if ka != "itq":
            a, b = b, a
        if op in ("==", "!="):
            if b[0] == "end":
                u = eng.uni("bool", (False, True))
                v = ("f", ("atend", a[2]), u.ident)
                return [(st, eng.map1(st, v, "id" if op == "==" else "not", (lambda x: x) if op == "==" else (lambda x: not x)))]
            if b[0] == "itq":
                if a == b:
                    return [(st, ("c", op == "=="))]
                h = getattr(eng, "iter_cmp", None)
                if h:
                    return h(eng, st, op, a, b, node)
    if ka == "end" and kb == "end":
        return [(st, ("c", op == "=="))]
    if isstr(a) and isstr(b):
        from engine import strconst
        x, y = strconst(a) if ka == "s" else None, strconst(b) if kb == "s" else None
        if x is not None and y is not None:
            return [(st, ("c", eng.PY[op](x, y)))]
        if a == b:
            return [(st, ("c", op in ("==", "<=", ">=")))]
        h = getattr(eng, "str_cmp", None)
        if h:
            return h(eng, st, op, a, b, node)
        n = ("strcmp", op, a, b)
        return [(st, ("f", n, eng.uni("bool", (False, True)).ident))]
    return None


def arith_hook(eng, st, op, a, b, t, node):
    # pointer arithmetic into arrays
    if a[0] == "ref" and b[0] == "l" and op in ("+", "-"):
        from engine import const
        k = const(b)
        if k is not None and a[2] and isinstance(a[2][-1], tuple) and a[2][-1][0] == "i":
            k = k if op == "+" else -k
            return [(st, ("ref", a[1], a[2][:-1] + (("i", a[2][-1][1] + k),)))]
        if k is not None and op == "+":
            v = eng.read(st, a)
            if v[0] == "A":
                return [(st, ("ref", a[1], a[2] + (("i", k),)))]
    if isstr(a) and b[0] == "l" and op == "+":
        return substr(eng, st, a, b, None, node)
    return None


# -- construction ----------------------------------------------------------------
def new(eng, st, e):
    return None


def delete(eng, st, v, e):
    pass


def deref(eng, st, p, node):
    k = p[0]
    if k in ("git", "gend"):
        return eng.seq.deref(st, p, node)
    if k == "it":
        v = seq_view(eng, st, p[1], eng.read(st, p[1]))
        if v[0] == "A":
            ok = 0 <= p[2] < len(v[1])
            eng.oblige("iterator-deref", node, st, ok, "dereferences an iterator that is at the end")
            return [(st, ("ref", p[1][1], p[1][2] + (("i", p[2]),)))] if ok else []
    if k == "end":
        eng.oblige("iterator-deref", node, st, False, "dereferences the end iterator")
        return []
    if k == "itq":
        q = eng.read(st, p[1])
        a = st.dom.get(("atend", p[2]), 3)
        if a & 2:
            eng.oblige("iterator-deref", node, st, False, "dereferences an iterator that may be at the end")
            if not a & 1:
                return []
            st.dom[("atend", p[2])] = 1
        else:
            eng.oblige("iterator-deref", node, st, True)
        root = ("q", p[2])
        if root not in st.store:
            el = elem_of(eng, st, q, p[2]) if q[0] == "Q" else None
            if q[0] == "L" and el is None:
                if len(q[1]) == 1:
                    el = q[1][0]
            st.store[root] = el if el is not None else unk("element")
        return [(st, ("ref", root, ()))]
    if k == "fit":
        return [(st, ("ref", p[1][1], p[1][2] + (("mv", p[3]),)))] if False else None
    if k == "s" or k == "txt":
        return [(st, eng.temp(st, node, index(eng, st, None, p, I(0), node)[0][1]))]
    return None


def scalar(eng, t):
    return eng.p.cat(t) in ("int", "bool", "enum", "char")


def construct(eng, st, e, f, ty, args):
    name = ty.get("name") or ""
    b = base(name)
    if f["n"].startswith("std::") or b.startswith("std::"):
        vals = [eng.val(st, a) for a in args]
        if b in STRS:
            return ctor_string(eng, st, e, f, vals, args)
        if b in SEQ:
            if not vals:
                return [(st, ("A", ()))]
            if e.get("copy") or e.get("move") or vals[0][0] in ("A", "L", "Q", "gl", "T") and len(vals) <= 2 and not (e.get("il")):
                return [(st, vals[0])]
            if e.get("il") and vals[0][0] in ("A",):
                return [(st, vals[0])]
            if vals[0][0] == "l":
                # vector (n, value)
                n = vals[0]
                el = vals[1] if len(vals) > 1 else I(0)
                if not n[1] and n[2] <= 64:
                    return [(st, ("A", (el,) * n[2]))]
                return [(st, ("Q", name, n, ("fill", el)))]
            if len(vals) >= 2 and vals[0][0] == "it" and vals[1][0] == "it":
                src = seq_view(eng, st, vals[0][1], eng.read(st, vals[0][1]))
                return [(st, ("A", src[1][vals[0][2]:vals[1][2]]))]
            return [(st, unk("sequence"))]
        if b in SETS:
            if not vals:
                return [(st, ("S", frozenset()))]
            if vals[0][0] == "A":
                cs = [eng.unlift(x) for x in vals[0][1]]
                if all(c is not None for c in cs):
                    return [(st, ("S", frozenset(cs)))]
            if vals[0][0] == "S":
                return [(st, vals[0])]
            if vals[0][0] == "l":
                return [(st, ("S", frozenset()))]
            return [(st, unk("set"))]
        if b in MAPS:
            if not vals:
                return [(st, ("M", ()))]
            if vals[0][0] == "A":
                items = []
                seen = set()
                for x in vals[0][1]:
                    if x[0] != "r":
                        return [(st, unk("map"))]
                    k = eng.unlift(x[2][0])
                    if k in seen:
                        continue
                    seen.add(k)
                    items.append((k, x[2][1]))
                return [(st, ("M", tuple(items)))]
            if vals[0][0] == "M":
                return [(st, vals[0])]
            return [(st, unk("map"))]
        if b in MMAPS:
            if not vals:
                return [(st, ("Q", name, I(0), "empty"))]
            return [(st, vals[0])]
        if b == "std::pair":
            if (e.get("copy") or e.get("move")) and len(vals) == 1:
                return [(st, vals[0])]
            if len(vals) == 1 and vals[0][0] == "r":
                return [(st, vals[0])]
            if len(vals) == 2:
                return [(st, ("r", "std::pair<>", (vals[0], vals[1])))]
            if not vals:
                ta = ty.get("targs") or []
                return [(st, ("r", "std::pair<>", tuple(eng.zero_of(t) if scalar(eng, t) else eng.default_rec(st, eng.p.ty(t)) for t in ta)))]
        if b in ("std::unique_ptr", "std::shared_ptr"):
            if not vals:
                return [(st, NULL)]
            if args and args[0][0] == "ref" and (e.get("move") or f["pt"] and f["pt"][0].startswith("&&") or f["pt"] and "&&" in f["pt"][0]):
                v = vals[0]
                return [(st, v)]
            return [(st, vals[0])]
        if b == "std::wstring_convert":
            return [(st, ("conv",))]
        if "iterator" in b.lower():
            return [(st, vals[0] if vals else unk("iterator"))]
        if b in ("std::allocator", "std::hash", "std::equal_to", "std::less"):
            return [(st, ("emptyobj", b))]
        if b.startswith("std::") and not vals:
            return [(st, unk(b))]
    if ty.get("cat") == "rec" and f["n"].startswith("__gnu_cxx"):
        return [(st, eng.val(st, args[0]) if args else unk("iterator"))]
    return None


def ctor_string(eng, st, e, f, vals, args):
    if not vals:
        return [(st, ("s", ()))]
    v = vals[0]
    if (e.get("copy") or e.get("move")) and not isstr(v):
        return [(st, v)]
    if isstr(v):
        if len(vals) >= 3 and vals[1][0] == "l" and vals[2][0] == "l" and len(f["pt"]) >= 3 and f["pt"][0].startswith("&"):
            return substr(eng, st, v, vals[1], vals[2], e)
        if len(vals) >= 2 and vals[1][0] == "l" and not f["pt"][0].startswith("&"):
            return substr(eng, st, v, I(0), vals[1], e)
        return [(st, v)]
    if v == NULL:
        eng.oblige("null-string", e, st, False, "string built from a null pointer")
        return []
    if v[0] == "l" and len(vals) >= 2 and not v[1]:
        from engine import const
        c = const(vals[1])
        if c is not None and v[2] <= 1024:
            return [(st, ("s", (("k", (c,) * v[2]),) if v[2] else ()))]
        if vals[1][0] == "f" and v[2] == 1:
            return [(st, ("s", (charpiece(vals[1]),)))]
    if v[0] == "A":
        # initializer list of characters
        s = ("s", ())
        from engine import scat
        for x in v[1]:
            s = scat(s, chars(eng, x))
        return [(st, s)]
    if v[0] == "it":
        src = eng.read(st, v[1])
        if src[0] in ("s", "txt"):
            return [(st, src)]
    return [(st, unk("string"))]


def charpiece(v):
    return ("chv", v)


def chars(eng, v):
    """String of one character value."""
    from engine import const
    c = const(v)
    if c is not None:
        return ("s", (("k", (c,)),))
    if v[0] == "f":
        return ("s", (charpiece(v),))
    return ("s", (("ext", ("char", v)),))


# -- strings --------------------------------------------------------------------
def strlen(eng, st, v):
    """Length of a string as affine value (or unk)."""
    if v[0] == "txt":
        return sym(v[2])
    n = I(0)
    var = [p for p in v[1] if p[0] == "f"]
    if len(var) == 1 and all(p[0] in ("k", "f", "chv") for p in v[1]):
        p = var[0]
        k = sum(len(x[1]) if x[0] == "k" else 1 for x in v[1] if x[0] != "f")
        return eng.map1(st, ("f", p[1], p[2]), ("slen", k), lambda x: len(x) + k)
    for p in v[1]:
        if p[0] == "k":
            n = aff_add(n, I(len(p[1])))
        elif p[0] == "chv":
            n = aff_add(n, I(1))
        elif p[0] == "ext":
            st.dbm.add(Z, ("len", p[1]), -1 if isinstance(p[1], tuple) and p[1][:1] == ("num",) else 0)
            n = aff_add(n, sym(("len", p[1])))
        elif p[0] == "sub":
            n = aff_add(n, p[3])
        elif p[0] == "f":
            lens = {len(x) for x in p[2].image(st.dom.get(p[1], p[2].uni.full))}
            if len(lens) == 1:
                n = aff_add(n, I(lens.pop()))
            else:
                s = ("flen", p[1], p[2])
                st.dbm.add(s, Z, max(lens))
                st.dbm.add(Z, s, -min(lens))
                n = aff_add(n, sym(s))
        else:
            return unk("length")
    return n


def substr(eng, st, v, pos, n, e):
    from engine import strconst, const
    c = strconst(v) if v[0] == "s" else None
    kp = const(pos)
    kn = const(n) if n is not None else None
    if c is not None and kp is not None and (n is None or kn is not None):
        if kp > len(c):
            eng.throw(st, "std::out_of_range", e)
            return []
        r = c[kp:] if n is None else c[kp:kp + kn]
        return [(st, ("s", (("k", r),) if r else ()))]
    if v[0] == "txt" and pos[0] == "l":
        N = sym(v[2])
        out = []
        for s2, b in eng.cmp(st, "<=", pos, N, None):
            if not b[1]:
                eng.throw(s2, "std::out_of_range", e)
                continue
            if n is None or kn == NPOS:
                out.append((s2, mksub(eng, s2, v, pos, aff_add(N, pos, -1))))
            elif n[0] == "l":
                for s3, b3 in eng.cmp(s2, "<=", aff_add(pos, n), N, None):
                    ln = n if b3[1] else aff_add(N, pos, -1)
                    out.append((s3, mksub(eng, s3, v, pos, ln)))
            else:
                out.append((s2, unk("substring")))
        return out
    if v[0] == "s" and len(v[1]) == 1 and v[1][0][0] == "ext" and pos[0] == "l":
        L = strlen(eng, st, v)
        out = []
        for s2, b in eng.cmp(st, "<=", pos, L, None):
            if not b[1]:
                eng.throw(s2, "std::out_of_range", e)
                continue
            tag = v[1][0][1]
            if kp == 0 and n is None:
                out.append((s2, v))
                continue
            if isinstance(tag, tuple) and tag and tag[0] == "part":
                tag = tag[1]
            out.append((s2, ("s", (("ext", ("part", tag)),))))
            s2.dbm.forget(("len", ("part", tag)))
            s2.dbm.add(Z, ("len", ("part", tag)), 0)
        return out
    h = getattr(eng, "str_substr", None)
    if h:
        r = h(eng, st, v, pos, n, e)
        if r is not None:
            return r
    if v[0] == "s" and kp is not None and kp >= 0 and n is None:
        r = cut(eng, st, v, kp)
        if r:
            return [(s2, ("s", tail)) for s2, head, tail in r]
    return [(st, unk("substring"))]


def mksub(eng, st, txt, pos, n):
    return ("s", (("sub", txt[1], canon(eng, st, pos), n),))


def tostr(eng, st, v):
    """String value of an argument used as a string (char or string)."""
    if isstr(v):
        return v
    if v[0] in ("l", "c", "f"):
        if v[0] == "f":
            # finite function with string values?
            im = v[2].image(st.dom.get(v[1], v[2].uni.full))
            if all(isinstance(x, tuple) and x and x[0] == "s" for x in im):
                return fstr(eng, v)
        return chars(eng, v)
    return None


def fstr(eng, v):
    """('f', sym, map to string values) -> string with one dependent piece."""
    fm = v[2]
    r = fm._cache.get("fstr")
    if r is None:
        from dom import fmap
        from engine import strconst
        r = fmap(fm.uni, tuple(x if isinstance(x, Undef) else strconst(x) for x in fm.vals))
        fm._cache["fstr"] = r
    return ("s", (("f", v[1], r),))


def sconcat(eng, st, a, b):
    from engine import scat
    a = tostr(eng, st, a)
    b = tostr(eng, st, b)
    if a is None or b is None or a[0] != "s" or b[0] != "s":
        if a is not None and a[0] == "txt" and b == ("s", ()):
            return a
        return unk("concatenation")
    return scat(a, b)


# -- free functions ----------------------------------------------------------------
def call(eng, st, e, f, args):
    n = f["n"]
    s = n.replace("std::__cxx11::", "std::").replace("std::__detail::", "std::")
    if s in ("std::move", "std::forward", "std::as_const", "std::ref", "std::cref"):
        return [(st, args[0])]
    if s == "std::operator+":
        a, b = eng.val(st, args[0]), eng.val(st, args[1])
        return [(st, sconcat(eng, st, a, b))]
    if s in ("std::operator==", "std::operator!=", "std::operator<", "std::operator>", "std::operator<=", "std::operator>=") or s.startswith("__gnu_cxx::operator"):
        op = s[s.index("operator") + 8:]
        a, b = eng.val(st, args[0]), eng.val(st, args[1])
        if op in eng.PY:
            return eng.cmp(st, op, a, b, e)
    if s in ("std::make_pair",):
        return [(st, ("r", "std::pair<>", (eng.val(st, args[0]), eng.val(st, args[1]))))]
    if s == "std::operator<<":
        return stream_out(eng, st, e, args)
    if s == "std::make_unique" or s == "std::make_shared":
        return make_unique(eng, st, e, f, args)
    if s in ("std::begin", "std::cbegin", "std::end", "std::cend", "std::size", "std::empty", "std::data"):
        v = eng.val(st, args[0])
        return container(eng, st, e, s[5:].replace("cbegin", "begin").replace("cend", "end"), args[0], v, [], f)
    if s in ("std::stoi", "std::stol", "std::stoul", "atoi", "std::atoi"):
        v = eng.val(st, args[0])
        if v[0] == "s" and len(v[1]) == 1 and v[1][0][0] == "ext" and isinstance(v[1][0][1], tuple) and v[1][0][1][:1] == ("num",):
            return [(st, v[1][0][1][1])]
        h = getattr(eng, "stoi", None)
        return h(eng, st, e, v) if h else None
    if s == "std::swap":
        a, b = eng.read(st, args[0]), eng.read(st, args[1])
        eng.write(st, args[0], b)
        eng.write(st, args[1], a)
        return [(st, VOID)]
    if s in ("std::min", "std::max"):
        a, b = eng.val(st, args[0]), eng.val(st, args[1])
        out = []
        for s2, r in eng.cmp(st, "<", b, a, e):
            if r[0] != "c":
                out.append((s2, unk(s)))
            else:
                take_b = r[1] if s == "std::min" else None
                if s == "std::min":
                    out.append((s2, b if r[1] else a))
                else:
                    out.append((s2, a if r[1] else b))
        return out
    if s in ("std::next", "std::prev"):
        v = eng.val(st, args[0])
        if v[0] in ("git", "gend") and eng.seq is not None and (len(args) == 1 or eng.val(st, args[1]) == I(1)):
            if s == "std::prev":
                return [(st, ("git", v[1], v[2] - 1))] if v[0] == "git" and isinstance(v[2], int) and v[2] > -3 else None
            if v[0] == "git":
                return eng.seq.advance(st, e, v, True)
        if v[0] == "it":
            from engine import const
            d = const(eng.val(st, args[1])) if len(args) > 1 else 1
            return [(st, ("it", v[1], v[2] + (d if s == "std::next" else -d)))]
        if v[0] == "itq" and s == "std::next":
            return advance(eng, st, e, v)
    if s == "std::distance":
        a, b = eng.val(st, args[0]), eng.val(st, args[1])
        if a[0] == "it" and b[0] == "it":
            return [(st, I(b[2] - a[2]))]
    if s in ("std::find_if", "std::any_of", "std::all_of", "std::none_of", "std::for_each", "std::count_if", "std::find", "std::count", "std::find_if_not"):
        r = algorithm(eng, st, e, s[5:], args)
        if r is not None:
            return r
    if s in ("std::to_string",):
        v = eng.val(st, args[0])
        if v[0] == "l" and not v[1]:
            from engine import S
            return [(st, S(str(v[2])))]
        return [(st, ("s", (("ext", ("num", v)),)))]
    if s in ("std::toupper", "toupper", "std::tolower", "tolower", "std::islower", "islower", "std::isupper", "isupper", "std::isalpha", "isalpha", "std::isdigit", "isdigit", "isspace", "std::isspace", "isalnum"):
        fn = {"toupper": lambda x: x - 32 if 97 <= x <= 122 else x,
              "tolower": lambda x: x + 32 if 65 <= x <= 90 else x,
              "islower": lambda x: 1 if 97 <= x <= 122 else 0,
              "isupper": lambda x: 1 if 65 <= x <= 90 else 0,
              "isalpha": lambda x: 1 if 65 <= x <= 90 or 97 <= x <= 122 else 0,
              "isdigit": lambda x: 1 if 48 <= x <= 57 else 0,
              "isalnum": lambda x: 1 if 48 <= x <= 57 or 65 <= x <= 90 or 97 <= x <= 122 else 0,
              "isspace": lambda x: 1 if x in (32, 9, 10, 11, 12, 13) else 0}[s.split("::")[-1]]
        v = eng.val(st, args[0])
        if v[0] in ("f", "c", "l"):
            if v[0] == "l" and v[1]:
                return [(st, unk(s))]
            return [(st, eng.map1(st, v, ("ctype", s.split("::")[-1]), fn))]
        return [(st, unk(s))]
    if s == "strlen" or s == "std::strlen":
        v = eng.val(st, args[0])
        if isstr(v):
            return [(st, strlen(eng, st, v))]
    if s in ("strcmp", "std::strcmp"):
        a, b = eng.val(st, args[0]), eng.val(st, args[1])
        if isstr(a) and isstr(b):
            from engine import strconst
            x, y = strconst(a) if a[0] == "s" else None, strconst(b) if b[0] == "s" else None
            if x is not None and y is not None:
                return [(st, I((x > y) - (x < y)))]
            h = getattr(eng, "str_eq", None)
            if h:
                return h(eng, st, a, b, e)
    if s == "std::endl" or s == "std::flush":
        return [(st, args[0])]
    if s in ("std::getline",):
        h = getattr(eng, "getline", None)
        if h:
            return h(eng, st, e, args)
        q = st.fork()
        q.store[("G", "eof")] = TRUE
        eng.write(st, args[1], ("s", (("ext", eng.newname("line")),)))
        st.store[("G", "eof")] = FALSE
        return [(st, args[0]), (q, args[0])]
    return None


def algorithm(eng, st, e, name, args):
    a, b = eng.val(st, args[0]), eng.val(st, args[1])
    if a[0] != "it" or b[0] != "it" or a[1] != b[1]:
        return None
    v = seq_view(eng, st, a[1], eng.read(st, a[1]))
    if v[0] != "A":
        return None
    fn = eng.val(st, args[2])
    out = []
    cur = [(st, 0)]
    for i in range(a[2], b[2]):
        nxt = []
        for s2, cnt in cur:
            el = ("ref", a[1][1], a[1][2] + (("i", i),))
            if name in ("find", "count"):
                res = eng.cmp(s2, "==", eng.read(s2, el), fn, e)
            elif fn[0] == "lam":
                res = eng.invoke_lam(s2, fn, [el], e)
            elif fn[0] == "fn" and fn[1] in eng.p.fns:
                res = eng.invoke(s2, eng.p.fns[fn[1]], [el], None, e)
            else:
                return None
            for s3, r in res:
                if name == "for_each":
                    nxt.append((s3, cnt))
                    continue
                t, f_ = eng.branch(s3, r, e)
                for q in t:
                    if name in ("find_if", "find"):
                        out.append((q, ("it", a[1], i)))
                    elif name == "any_of":
                        out.append((q, TRUE))
                    elif name == "none_of":
                        out.append((q, FALSE))
                    elif name in ("count_if", "count"):
                        nxt.append((q, cnt + 1))
                    else:
                        nxt.append((q, cnt))
                for q in f_:
                    if name == "all_of":
                        out.append((q, FALSE))
                    elif name == "find_if_not":
                        out.append((q, ("it", a[1], i)))
                    else:
                        nxt.append((q, cnt))
        cur = nxt
    for s2, cnt in cur:
        fin = {"find_if": ("it", a[1], b[2]), "find": ("it", a[1], b[2]), "find_if_not": ("it", a[1], b[2]),
               "any_of": FALSE, "all_of": TRUE, "none_of": TRUE, "for_each": fn,
               "count_if": I(cnt), "count": I(cnt)}[name]
        out.append((s2, fin))
    return out


def make_unique(eng, st, e, f, args):
    # the created type is the target of the returned pointer
    ty = eng.p.ty(f["rt"])
    ta = ty.get("targs") or []
    if not ta:
        return None
    cls = ta[0]
    h = getattr(eng, "on_new", None)
    if h:
        r = h(eng, st, e, cls, args)
        if r is not None:
            return r
    rec = eng.p.recs.get(eng.p.ty(cls).get("name"))
    if rec is None:
        return None
    root = ("h", eng.where(e), eng.depth)
    ctors = [g for g in eng.p.fns.values() if g.get("ctor") and g["f"].get("crec") == rec["id"] and len(g["ps"]) >= len(args)
             and not (len(args) == 1 and g["ps"] and rec["id"] in g["ps"][0]["t"])]
    base_v = eng.default_rec(st, eng.p.ty(cls))
    st.store[root] = base_v
    ref = ("ref", root, ())
    for g in ctors:
        if len(g["ps"]) == len(args) or args == []:
            out = []
            full = list(args)
            for p in g["ps"][len(args):]:
                if p.get("def") is not None:
                    full.append(eng.evalconst(p["def"]))
                else:
                    full.append(unk("default argument"))
            for s2, _ in eng.invoke(st, g, full, ref, e):
                out.append((s2, ref))
            return out
    return [(st, ref)]


def stream_out(eng, st, e, args):
    h = getattr(eng, "on_stream", None)
    if h:
        r = h(eng, st, e, args)
        if r is not None:
            return r
    return [(st, args[0])]


# -- member functions -----------------------------------------------------------------
def method(eng, st, e, f, o, args):
    cls = base(f.get("cls") or f.get("crec") or "")
    m = f["n"].split("::")[-1] if "operator" not in f["n"] else f["n"][f["n"].index("operator"):]
    v = eng.read(st, o)
    if v[0] == "uninit":
        v = unk("uninit")
    if eng.std_method is not None:
        r = eng.std_method(eng, st, e, m, o, v, args, f)
        if r is not None:
            return r
    if cls in STRS or isstr(v) and cls.startswith("std::"):
        return string_method(eng, st, e, f, o, v, m, args)
    if cls == "std::wstring_convert":
        h = getattr(eng, "convert", None)
        if h:
            return h(eng, st, e, m, args)
        return None
    if cls in ("std::unique_ptr", "std::shared_ptr"):
        if m == "get":
            return [(st, v)]
        if m in ("operator->", "operator*"):
            return [(s2, r) for s2, r in eng.deref(st, v, e)]
        if m == "operator=":
            nv = eng.val(st, args[0])
            eng.write(st, o, nv)
            return [(st, o)]
        if m == "operator bool":
            return [(st, ("c", v != NULL))] if v[0] in ("ref", "c") else [(st, v)]
        if m == "release":
            eng.write(st, o, NULL)
            return [(st, v)]
        if m == "reset":
            eng.write(st, o, eng.val(st, args[0]) if args else NULL)
            return [(st, VOID)]
    if v[0] in ("git", "gend") and "operator" in m:
        return eng.seq.iter_method(st, e, m, o, v, args)
    if v[0] in ("gl", "T"):
        return eng.seq.container(st, e, m, o, v, args, f)
    if v[0] == "gmm":
        return eng.seq.mmap(st, e, m, o, v, args, f)
    if v[0] in ("it", "itq", "end", "fit") and "operator" in m:
        return iter_method(eng, st, e, m, o, v, args)
    if cls == "std::pair" and m == "operator=":
        eng.write(st, o, eng.val(st, args[0]))
        return [(st, o)]
    if v[0] in ("A", "L", "Q", "S", "M"):
        return container(eng, st, e, m, o, v, args, f)
    if cls in ("std::basic_ostream", "std::basic_ios", "std::basic_istream", "std::ios_base"):
        if m == "operator<<":
            return stream_out(eng, st, e, [o] + args)
        h = getattr(eng, "on_ios", None)
        if h:
            r = h(eng, st, e, m, o, args)
            if r is not None:
                return r
        if m == "operator bool":
            b = st.store.get(("G", "eof"))
            if b is not None:
                return [(st, ("c", not b[1]))]
    if m == "operator=" and cls and f["n"].startswith("std::"):
        eng.write(st, o, eng.val(st, args[0]))
        return [(st, o)]
    if m == "operator=" and (f.get("defaulted") or f.get("implicit")):
        eng.write(st, o, eng.val(st, args[0]))
        return [(st, o)]
    return None


def advance(eng, st, e, v):
    """Successor of an iterator into an unknown sequence."""
    n = ("its", v[1][1], eng.where(e))
    a = st.dom.get(("atend", v[2]), 3)
    if a & 2 and not st.taint:
        eng.oblige("iterator-advance", e, st, False, "advances an iterator that may be at the end")
    h = getattr(eng, "on_advance", None)
    if n == v[2]:
        n = n + ("'",) if n[-1] != "'" else n[:-1]
    st.store.pop(("q", n), None)
    st.dom.pop(("atend", n), None)
    drop(st, n)
    if h:
        h(eng, st, e, v, n)
    return [(st, ("itq", v[1], n))]


def drop(st, n):
    """Forget facts about values derived from element symbol n."""
    def mentions(s):
        return s == n or isinstance(s, tuple) and any(mentions(x) for x in s if isinstance(x, tuple))
    for s in [s for s in st.dom if isinstance(s, tuple) and s[0] != "ch" and mentions(s)]:
        del st.dom[s]
    for s in st.dbm.syms():
        if isinstance(s, tuple) and mentions(s):
            st.dbm.forget(s)


def iter_method(eng, st, e, m, o, v, args):
    if m == "operator*" or m == "operator->":
        return [(s2, r) for s2, r in eng.deref(st, v, e)]
    if m in ("operator++", "operator--"):
        post = bool(args)
        d = 1 if m == "operator++" else -1
        if v[0] == "it":
            seq = seq_view(eng, st, v[1], eng.read(st, v[1]))
            if seq[0] == "A":
                ok = 0 <= v[2] + d <= len(seq[1])
                eng.oblige("iterator-advance", e, st, ok, "moves an iterator outside its sequence")
                if not ok:
                    return []
            nv = ("it", v[1], v[2] + d)
            eng.write(st, o, nv)
            return [(st, v if post else o)]
        if v[0] == "itq" and d == 1:
            out = []
            for s2, nv in advance(eng, st, e, v):
                eng.write(s2, o, nv)
                out.append((s2, v if post else o))
            return out
        if v[0] == "end":
            eng.oblige("iterator-advance", e, st, False, "advances the end iterator")
            return []
    if m == "operator=":
        eng.write(st, o, eng.val(st, args[0]))
        return [(st, o)]
    if m in ("operator==", "operator!="):
        return eng.cmp(st, m[8:], v, eng.val(st, args[0]), e)
    if m in ("operator+", "operator-") and v[0] == "it":
        b = eng.val(st, args[0])
        from engine import const
        k = const(b)
        if b[0] == "it":
            return [(st, I(v[2] - b[2]))]
        if k is not None:
            return [(st, ("it", v[1], v[2] + (k if m[-1] == "+" else -k)))]
    return None


def container(eng, st, e, m, o, v, args, f):
    k = v[0]
    if m in ("begin", "cbegin"):
        if k == "A":
            return [(st, ("it", o, 0))]
        if k in ("Q", "L"):
            n = ("itb", o[1], eng.where(e))
            st.store.pop(("q", n), None)
            st.dom.pop(("atend", n), None)
            drop(st, n)
            may0 = k == "Q" or v[2]
            if k == "Q":
                lo, hi = eng.bounds(st, v[2]) if v[2][0] == "l" else (None, None)
                if hi == 0:
                    st.dom[("atend", n)] = 2
                elif lo is not None and lo > 0:
                    st.dom[("atend", n)] = 1
            elif not may0:
                st.dom[("atend", n)] = 1
            h = getattr(eng, "on_begin", None)
            if h:
                h(eng, st, e, o, v, n)
            return [(st, ("itq", o, n))]
        if k in ("S", "M"):
            return [(st, ("it", o, 0))]
    if m in ("end", "cend"):
        if k in ("A",):
            return [(st, ("it", o, len(v[1])))]
        if k in ("S", "M"):
            return [(st, ("end", o))]
        return [(st, ("end", o))]
    if m in ("size", "length"):
        if k in ("A", "S", "M"):
            return [(st, I(len(v[1])))]
        if k == "Q":
            return [(st, v[2])]
        if k == "L":
            n = ("size", o[1], o[2])
            st.dbm.forget(n)
            st.dbm.add(Z, n, 0 if v[2] else -1)
            return [(st, sym(n))]
    if m == "empty":
        if k in ("A", "S", "M"):
            return [(st, ("c", not v[1]))]
        if k == "Q" and v[2][0] == "l":
            return eng.cmp(st, "==", v[2], I(0), e)
        if k == "L":
            if not v[2]:
                return [(st, FALSE)]
            n = ("empty", o[1], o[2])
            return [(st, ("f", n, eng.uni("bool", (False, True)).ident))]
    if m == "clear":
        eng.write(st, o, ("S", frozenset()) if k == "S" else ("M", ()) if k == "M" else ("A", ()))
        return [(st, VOID)]
    if m == "operator=":
        eng.write(st, o, eng.val(st, args[0]))
        return [(st, o)]
    if k in ("Q",):
        h = getattr(eng, "seq_hook", None)
        if h:
            r = h(eng, st, e, m, o, v, args, f)
            if r is not None:
                return r
    if m in ("push_back", "emplace_back", "push_front", "emplace_front"):
        x = eng.val(st, args[0]) if len(args) == 1 else None
        if m.startswith("emplace"):
            # construct in place
            ta = eng.p.ty(f.get("crec") or f.get("cls") or "").get("targs") or []
            x = emplace_val(eng, st, e, ta[0] if ta else None, args)
        if k == "A":
            nv = v[1] + (x,) if m.endswith("back") else (x,) + v[1]
            eng.write(st, o, ("A", nv))
            return [(st, VOID)]
        if k == "L":
            els = v[1] if x in v[1] else tuple(sorted(v[1] + (x,), key=repr))
            eng.write(st, o, ("L", els, False))
            return [(st, VOID)]
        if k == "Q":
            n = aff_add(v[2], I(1)) if v[2][0] == "l" else v[2]
            eng.write(st, o, ("Q", v[1], n, ("push", v[3], x)))
            return [(st, VOID)]
    if m in ("front", "back"):
        if k == "A":
            ok = bool(v[1])
            eng.oblige("empty-access", e, st, ok, m + "() of an empty sequence")
            if not ok:
                return []
            return [(st, ("ref", o[1], o[2] + (("i", 0 if m == "front" else len(v[1]) - 1),)))]
        if k == "Q" and v[2][0] == "l":
            r = eng.cmp(st, ">", v[2], I(0), e)
            out = []
            for s2, b in r:
                if b[1]:
                    n = (m, o[1], o[2])
                    root = ("q", n)
                    if root not in s2.store:
                        s2.store[root] = elem_of(eng, s2, v, n) or unk("element")
                    out.append((s2, ("ref", root, ())))
                else:
                    eng.oblige("empty-access", e, s2, False, m + "() of a sequence that may be empty")
            return out
    if m in ("pop_front", "pop_back"):
        if k == "A":
            ok = bool(v[1])
            eng.oblige("empty-access", e, st, ok, m + "() of an empty sequence")
            if not ok:
                return []
            eng.write(st, o, ("A", v[1][1:] if m == "pop_front" else v[1][:-1]))
            return [(st, VOID)]
    if m == "insert" and k == "A" and args:
        a0 = eng.val(st, args[0])
        if a0[0] == "it" and a0[1] == o:
            if len(args) == 2:
                x = eng.val(st, args[1])
                eng.write(st, o, ("A", v[1][:a0[2]] + (x,) + v[1][a0[2]:]))
                return [(st, ("it", o, a0[2]))]
            if len(args) == 3:
                b, c = eng.val(st, args[1]), eng.val(st, args[2])
                if b[0] == "it" and c[0] == "it" and b[1] == c[1]:
                    src = eng.read(st, b[1])
                    if src[0] == "A":
                        eng.write(st, o, ("A", v[1][:a0[2]] + src[1][b[2]:c[2]] + v[1][a0[2]:]))
                        return [(st, ("it", o, a0[2]))]
                if b[0] in ("git", "tbegin"):
                    return eng.seq.container(st, e, m, o, v, args, f)
    if m == "erase" and k == "A" and args:
        a0 = eng.val(st, args[0])
        if a0[0] == "it" and a0[1] == o and len(args) == 1:
            ok = 0 <= a0[2] < len(v[1])
            eng.oblige("iterator-deref", e, st, ok, "erases the end iterator")
            if not ok:
                return []
            eng.write(st, o, ("A", v[1][:a0[2]] + v[1][a0[2] + 1:]))
            return [(st, ("it", o, a0[2]))]
    if m in ("at", "operator[]"):
        if k == "M":
            return map_at(eng, st, e, o, v, eng.val(st, args[0]), m == "at")
        if k in ("A", "Q"):
            i = eng.val(st, args[0])
            from engine import const
            c = const(i)
            if k == "A" and c is not None and 0 <= c < len(v[1]):
                eng.oblige("array-bounds", e, st, True)
                return [(st, ("ref", o[1], o[2] + (("i", c),)))]
            if m == "at" and k == "A" and c is not None:
                eng.throw(st, "std::out_of_range", e)
                return []
            return eng.index(st, o, i, e)
    if m in ("find", "count", "contains"):
        if k in ("S", "M"):
            key = eng.val(st, args[0])
            keys = v[1] if k == "S" else frozenset(x for x, _ in v[1])
            if key[0] == "l" and key[1] or key[0] in ("unk", "ref", "s") and k == "S":
                if key[0] == "s":
                    return None
                return [(st, unk("find"))]
            fv = eng.map1(st, key, ("in", keys), lambda x: x in keys)
            if m == "count":
                return [(st, eng.map1(st, fv, "b2i", lambda x: 1 if x else 0))]
            if m == "contains":
                return [(st, fv)]
            return [(st, ("fit", o, fv, key))]
    if m in ("emplace", "insert") and k == "S":
        key = eng.val(st, args[0])
        if key[0] == "A":
            cs = [eng.unlift(x) for x in key[1]]
            eng.write(st, o, ("S", v[1] | frozenset(cs)))
            return [(st, VOID)]
        out = []
        for s2, c in eng.split(st, key):
            if c is None:
                return None
            eng.write(s2, o, ("S", v[1] | {c}))
            out.append((s2, unk("insert result")))
        return out
    if m == "erase" and k == "S":
        key = eng.val(st, args[0])
        out = []
        for s2, c in eng.split(st, key):
            eng.write(s2, o, ("S", v[1] - {c}))
            out.append((s2, I(1 if c in v[1] else 0)))
        return out
    if m == "data" and k in ("A", "Q"):
        return [(st, o)]
    if m == "resize" and k in ("Q", "A"):
        n = eng.val(st, args[0])
        if n[0] == "l":
            if k == "A" and not n[1] and n[2] <= len(v[1]):
                eng.write(st, o, ("A", v[1][:n[2]]))
            else:
                eng.write(st, o, ("Q", v[1] if k == "Q" else f.get("crec"), n, v[3] if k == "Q" else "resized"))
            return [(st, VOID)]
    if m == "reserve":
        return [(st, VOID)]
    return None


def emplace_val(eng, st, e, t, args):
    if t is None:
        return unk("emplace")
    if len(args) == 1:
        v = eng.val(st, args[0])
        if v[0] == "r" and v[1] == eng.p.ty(t).get("name") or scalar(eng, t):
            return v
    cls = eng.p.ty(t).get("name")
    for g in eng.p.fns.values():
        if g.get("ctor") and g["f"].get("crec") == cls and len(g["ps"]) >= len(args):
            if all(p["t"].lstrip("&").replace("const ", "") for p in g["ps"]):
                pass
    return unk("emplace")


def map_at(eng, st, e, o, v, key, throwing):
    d = dict(v[1])
    if key[0] in ("unk", "uninit") or key[0] == "l" and key[1]:
        eng.giveup(st, "lookup by unknown key", e)
        return [(st, unk("lookup"))]
    out = []
    present = eng.map1(st, key, ("in", frozenset(d)), lambda x: x in d)
    t, fl = eng.branch(st, present, e)
    if not fl:
        eng.oblige("lookup", e, st, True)
    for s2 in fl:
        if throwing:
            s2.tr = s2.tr
            w = eng.witness(s2, key, lambda x: x not in d)
            s2.note(eng.where(e), "no table entry for %s" % w)
            eng.throw(s2, "std::out_of_range", e)
        else:
            out.append((s2, unk("default inserted")))
    for s2 in t:
        if all(isinstance(x, tuple) and (x[0] in ("c", "s") or x[0] == "l" and not x[1]) for x in d.values()):
            ks = ("at", v)
            if all(x[0] == "s" for x in d.values()):
                out.append((s2, eng.map1(s2, key, ks, lambda x: d[x] if x in d else UNDEF)))
            else:
                out.append((s2, eng.map1(s2, key, ks, lambda x: eng.unlift(d[x]) if x in d else UNDEF)))
        else:
            for s3, c in eng.split(s2, key):
                out.append((s3, d[c]))
    res = []
    for s2, x in out:
        if x[0] == "f":
            im = x[2].image(s2.dom.get(x[1], x[2].uni.full))
            if all(isinstance(y, tuple) and y and y[0] == "s" for y in im):
                x = fstr(eng, x)
        res.append((s2, x))
    return res


def string_method(eng, st, e, f, o, v, m, args):
    from engine import strconst, const, scat
    if m in ("size", "length"):
        if isstr(v):
            return [(st, strlen(eng, st, v))]
    if m == "empty":
        if isstr(v):
            n = strlen(eng, st, v)
            if n[0] in ("l", "f"):
                return eng.cmp(st, "==", n, I(0), e)
    if m in ("at", "operator[]"):
        i = eng.val(st, args[0])
        if v[0] == "txt":
            return text_at(eng, st, v, i, e, m == "at")
        c = strconst(v) if v[0] == "s" else None
        k = const(i)
        if c is not None and k is not None:
            if k < len(c):
                eng.oblige("string-bounds", e, st, True)
                return [(st, ("ref", o[1], o[2] + (("i", k),)))] if False else [(st, I(c[k]))]
            if m == "at":
                eng.throw(st, "std::out_of_range", e)
                return []
        if v[0] == "s":
            return index(eng, st, o, v, i, e)
    if m in ("c_str", "data"):
        return [(st, v)]
    if m == "substr":
        vs = [eng.val(st, a) for a in args]
        if isstr(v):
            n = vs[1] if len(vs) > 1 else None
            if n is not None and const(n) == NPOS:
                n = None
            return substr(eng, st, v, vs[0] if vs else I(0), n, e)
    if m == "find" and isstr(v):
        vs = [eng.val(st, a) for a in args]
        c = strconst(v) if v[0] == "s" else None
        start = vs[1] if len(vs) > 1 else I(0)
        k = const(vs[0])
        ks = const(start)
        if c is not None and k is not None and ks is not None:
            pat = k if isinstance(k, tuple) else (k,)
            for i in range(ks, len(c) - len(pat) + 1):
                if c[i:i + len(pat)] == pat:
                    return [(st, I(i))]
            return [(st, I(NPOS))]
        n = strlen(eng, st, v)
        if n[0] == "l" and start[0] == "l":
            q = st.fork()
            r = ("find", eng.where(e), eng.depth)
            for s in (st,):
                eng.drop_sym(s, r)
            ok = eng.assume_le(st, aff_add(start, sym(r), -1), 0)
            ok = ok and eng.assume_le(ok, aff_add(sym(r), n, -1), -1)
            out = [(q, I(NPOS))]
            if ok:
                out.append((ok, sym(r)))
            return out
    if m in ("operator+=", "append", "push_back"):
        a = eng.val(st, args[0])
        x = sconcat(eng, st, v, a)
        eng.write(st, o, x)
        return [(st, o)]
    if m == "operator=" or m == "assign":
        a = eng.val(st, args[0])
        if a[0] in ("l", "f") or a[0] == "c":
            a = tostr(eng, st, a)
        eng.write(st, o, a if a is not None else unk("string"))
        return [(st, o)]
    if m == "clear":
        eng.write(st, o, ("s", ()))
        return [(st, VOID)]
    if m in ("back", "front") and isstr(v):
        c = strconst(v) if v[0] == "s" else None
        if c is not None:
            ok = bool(c)
            eng.oblige("string-bounds", e, st, ok, m + "() of an empty string")
            return [(st, I(c[-1] if m == "back" else c[0]))] if ok else []
        n = strlen(eng, st, v)
        if v[0] == "txt":
            i = I(0) if m == "front" else aff_add(n, I(1), -1)
            return text_at(eng, st, v, i, e, False)
        return index(eng, st, o, v, I(0), e) if m == "front" else [(st, unk("char"))]
    if m == "compare" and isstr(v):
        a = eng.val(st, args[0])
        c, d = strconst(v) if v[0] == "s" else None, strconst(a) if a[0] == "s" else None
        if c is not None and d is not None:
            return [(st, I((c > d) - (c < d)))]
    if m in ("begin", "end", "cbegin", "cend"):
        c = strconst(v) if v[0] == "s" else None
        if c is not None:
            return [(st, ("it", o, 0 if "begin" in m else len(c)))]
        if eng.seq is not None:
            g = eng.seq.chars(st, v)
            if g is not None:
                return eng.seq.container(st, e, m, o, g, [], f)
        return [(st, unk("string iterator"))]
    if m in ("reserve",):
        return [(st, VOID)]
    return None
