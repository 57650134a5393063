"""C06-C10: the written notations of a syllable.

Each notation writer is interpreted abstractly on a syllable whose five
components are unknown; the result is one symbolic string per path, made of
constant pieces and table look-ups on the components.  These are compared with
specifications of the notations over all component values.
"""
import itertools

import engine
import prog
from common import Report
from engine import St
from prog import AnalysisBroken

NOTATIONS = {"Thai": "ThaiSylOutput", "Roman": "RomanSylOutput", "Phonetic": "PhoneticSylOutput",
             "Raw": "RawSylOutput", "Soundex": "SoundexSylOutput"}
COMP = ("iCons1", "iCons2", "vowel", "eCons", "tone")
ENUM = ("EInitConsSound", "ESecInitCons", "EVowel", "EEndConsClass", "ETone")

CLUSTER = {"KA", "KHA", "PA", "PHA", "TA", "THA", "BA", "FA", "DA"}


class Ctx:
    def __init__(self):
        self.p = prog.Program()
        self.names = []
        for e in ENUM:
            if e not in self.p.enums:
                raise AnalysisBroken("enumeration %s not found" % e)
            self.names.append({v: n for n, v in self.p.enums[e]})
        self.rec = "Syl"
        if "Syl" not in self.p.recs:
            raise AnalysisBroken("class Syl not found")

    def ctor(self, npar, first):
        for f in self.p.fns.values():
            i = f["f"]
            if i["n"] == "Syl::Syl" and len(i["pt"]) == npar and self.p.ty(i["pt"][0]).get("name") == first:
                return f
        raise AnalysisBroken("constructor Syl(%s, ...) not found" % first)

    def writer(self, cls):
        base = "ISylOutput"
        if cls not in self.p.recs:
            raise AnalysisBroken("notation writer %s not found" % cls)
        for m in self.p.recs[base]["methods"]:
            if m["n"] == "output":
                o = self.p.overrider(cls, m["id"])
                if o is not None and o["id"] in self.p.fns:
                    return self.p.fns[o["id"]]
        raise AnalysisBroken("%s does not write syllables" % cls)

    def symbolic(self, e, st, pos=("end",)):
        """A syllable built through the public constructor from five unknown
        valid components."""
        c = self.ctor(6, "EInitConsSound")
        e.symuni = {}
        args = []
        syms = []
        for i, en in enumerate(ENUM):
            v = e.fresh(st, en, ("syl", COMP[i]))
            syms.append(v[1])
            e.symuni[v[1]] = v[2].uni
            bad = [n for n, k in self.p.enums[en] if n == "INVALID"]
            m = v[2].uni.full
            for val, nm in self.names[i].items():
                if nm in bad:
                    m &= ~v[2].pre[val]
            st.dom[v[1]] = m
            args.append(v)
        args.append(e.fresh(st, "int", ("syl", "endPos")))
        r = e.construct_val(st, {"k": "ctor", "l": "entry", "t": "Syl"}, c["f"], self.p.ty("Syl"), args)
        if len(r) != 1:
            raise AnalysisBroken("syllable constructor has several outcomes")
        return r[0][0], r[0][1], syms

    def render(self, cls, mk=None):
        """[(state, value)], engine, symbols"""
        e = engine.Engine(self.p)
        e.convert = convert
        st = St()
        syms = None
        if mk is None:
            st, v, syms = self.symbolic(e, st)
        else:
            v = mk(e, st)
        st.store[("t", 0, "syl")] = v
        st.store[("t", 0, "out")] = e.default_rec(st, self.p.ty(cls))
        fn = self.writer(cls)
        r = e.invoke(st, fn, [("ref", ("t", 0, "syl"), ())], ("ref", ("t", 0, "out"), ()), {"k": "call", "l": "entry"})
        return r, e, syms, fn


def convert(eng, st, e, m, args):
    """UTF-8 conversion of an opaque UTF-16 text."""
    v = eng.val(st, args[0])
    if m == "to_bytes" and v[0] == "s" and len(v[1]) == 1 and v[1][0][0] == "ext":
        eng.throw(st.fork(), "std::range_error", e)
        return [(st, ("s", (("ext", ("utf8", v[1][0][1])),)))]
    return None


def pieces(v):
    return v[1] if v[0] == "s" else None


def concrete(v, env):
    """bytes of a symbolic string for given symbol values; None if unknown"""
    out = []
    for p in pieces(v):
        if p[0] == "k":
            out.append(bytes(p[1]))
        elif p[0] == "f":
            i = env.get(p[1])
            if i is None:
                return None
            x = p[2].vals[i]
            if not isinstance(x, (bytes, str, tuple)):
                return None
            out.append(x if isinstance(x, bytes) else x.encode("utf8") if isinstance(x, str) else bytes(x))
        elif p[0] == "ext" and p[1] == ("num", ("l", ((("syl", "endPos"), 1),), 0)):
            out.append(b"#")
        else:
            return None
    return b"".join(out)


def sweep(rep, ctx, cls):
    """Yield (component names, text, state) for every component combination of
    every path; records failures to render."""
    r, e, syms, fn = ctx.render(cls)
    where = "%s:%s" % (fn["tu"], fn["name"])
    rep.count("paths", len(r))
    rep.count("functions", len(e.fnseen))
    for st, exc in e.thrown[0]:
        if st.taint:
            rep.unresolved("%s-throws" % cls, "possible exception %s" % exc)
            continue
        cube = [[ctx.names[i][a] for a in members(e, st, s, i, ctx)] for i, s in enumerate(syms)]
        rep.violation("%s/throws/%s" % (cls, exc), st.trace()[-1].split(" ")[0] if st.trace() else where,
                      "%s throws %s for syllables %s" % (cls, exc, brief(cube)), st.trace())
    for k, f in e.findings.items():
        rep.violation("%s/%s/%s" % (cls, f["kind"], f["fn"]), f["loc"], "%s: %s" % (cls, f["msg"]), f["trace"])
    for k, (m, t) in e.unresolved.items():
        rep.unresolved("%s/%s" % (cls, k[0]), "%s %s" % (m, t))
    seen = set()
    for st, v in r:
        idx = []
        for s in syms:
            u = e.symuni[s]
            m = st.dom.get(s, u.full)
            idx.append([i for i in range(len(u.atoms)) if m >> i & 1])
        if v[0] != "s" or st.taint:
            rep.unresolved("%s-value" % cls, "text of some syllables could not be determined: %s %s" % (v[:2], st.taint))
            continue
        for tup in itertools.product(*idx):
            env = dict(zip(syms, tup))
            t = concrete(v, env)
            names = tuple(ctx.names[i][e.symuni[s].atoms[tup[i]]] for i, s in enumerate(syms))
            if t is None:
                rep.unresolved("%s-value" % cls, "text of %s could not be determined" % (names,))
                continue
            seen.add(names)
            yield names, t, where
    rep.count("syllables", len(seen))


def members(e, st, s, i, ctx):
    u = e.symuni[s]
    m = st.dom.get(s, u.full)
    return [a for j, a in enumerate(u.atoms) if m >> j & 1]


def brief(cube):
    return " x ".join("{%s}" % ",".join(c[:4] + (["..."] if len(c) > 4 else [])) for c in cube)


# ---------------------------------------------------------------------------
# C06

def check_total(pid):
    rep = Report(pid, "each notation writer interpreted on a symbolic syllable, the blank and a literal; "
                      "no path may fail a table look-up or produce an empty text")
    ctx = Ctx()
    for nm, cls in NOTATIONS.items():
        n = 0
        for names, t, where in sweep(rep, ctx, cls):
            n += 1
            if not t.strip():
                rep.violation("%s/blank/%s" % (cls, names[2]), where, "%s writes nothing for syllable %s" % (cls, "-".join(names)))
            else:
                rep.ok()
        rep.count("notations")
        blank_literal(rep, ctx, nm, cls)
    # the product of the valid component values
    full = 1
    for i in range(5):
        full *= len([n for n in ctx.names[i].values() if n != "INVALID"])
    missing = full * len(NOTATIONS) - rep.counts["syllables"]
    if missing and not rep.viol and not rep.unres:
        raise AnalysisBroken("%d syllables were not covered" % missing)
    rep.floor("notations", 5)
    rep.sample({"syllables_per_notation": full})
    return rep


def blank_literal(rep, ctx, nm, cls):
    def blank(e, st):
        for gi, v in ctx.p.vars.items():
            if gi.endswith("@S@Syl@Blank"):
                return e.globalval(gi)
        raise AnalysisBroken("Syl::Blank not found")

    r, e, _, fn = ctx.render(cls, blank)
    where = "%s:%s" % (fn["tu"], fn["name"])
    outs = []
    for st, exc in e.thrown[0]:
        rep.violation("%s/blank-throws" % cls, where, "%s throws %s for the blank" % (cls, exc), st.trace())
    for st, v in r:
        t = concrete(v, {}) if v[0] == "s" else None
        if t is None or st.taint:
            rep.unresolved("%s/blank" % cls, "text of the blank not determined: %s" % (v,))
        elif t != b" ":
            rep.violation("%s/blank" % cls, where, "%s writes the blank as %r, not as a space" % (cls, t.decode("utf8", "replace")), st.trace())
        else:
            rep.ok()

    def literal(e, st):
        c = [f for f in ctx.p.fns.values() if f["f"]["n"] == "Syl::Syl" and len(f["f"]["pt"]) == 2
             and ctx.p.cat(f["f"]["pt"][0]) == "int"]
        if not c:
            raise AnalysisBroken("constructor Syl(int, u16string) not found")
        lit = ("s", (("ext", ("lit",)),))
        st.dbm.add(engine.Z, ("len", ("lit",)), -1)
        e.litname = ("lit",)
        rr = e.construct_val(st, {"k": "ctor", "l": "entry", "t": "Syl"}, c[0]["f"], ctx.p.ty("Syl"),
                             [e.fresh(st, "int", ("syl", "endPos")), lit])
        return rr[0][1]

    r, e, _, fn = ctx.render(cls, literal)
    want = [("k", (40,)), ("ext", ("utf8", ("lit",))), ("k", (41,))]
    if nm == "Raw":
        want = want[:2] + [("k", (41, 64)), ("ext", ("num", ("l", ((("syl", "endPos"), 1),), 0)))]
    for st, exc in e.thrown[0]:
        if exc.endswith("range_error"):
            continue         # conversion of unpaired surrogates
        rep.violation("%s/literal-throws" % cls, where, "%s throws %s for a literal" % (cls, exc), st.trace())
    for st, v in r:
        if v[0] != "s" or st.taint:
            rep.unresolved("%s/literal" % cls, "text of a literal not determined: %s %s" % (v, st.taint))
        elif list(v[1]) != want:
            rep.violation("%s/literal" % cls, where, "%s does not write a literal as its text in parentheses: %s" % (cls, v[1]), st.trace())
        else:
            rep.ok()


# ---------------------------------------------------------------------------
# C09: romanization

RTGS_I = {"KA": "k", "KHA": "kh", "NGA": "ng", "JA": "ch", "CHA": "ch", "YA": "y", "DA": "d", "TA": "t",
          "THA": "th", "NA": "n", "BA": "b", "PA": "p", "PHA": "ph", "FA": "f", "MA": "m", "RA": "r",
          "LA": "l", "WA": "w", "SA": "s", "HA": "h", "A": ""}
RTGS_S = {"NONE": "", "RA": "r", "LA": "l", "WA": "w"}
RTGS_V = {"A": "a", "I": "i", "UE": "ue", "U": "u", "E": "e", "AE": "ae", "IA": "ia", "UEA": "uea",
          "UA": "ua", "O": "o", "AU": "o", "OE": "oe"}
RTGS_E = {"NONE": "", "KOK": "k", "KOT": "t", "KOP": "p", "KONG": "ng", "KON": "n", "KOM": "m",
          "KOEY": "i", "KOEW": "o"}
LONG = {"AA": "A", "II": "I", "UEE": "UE", "UU": "U", "EE": "E", "AEE": "AE", "IAA": "IA", "UEAA": "UEA",
        "UAA": "UA", "OO": "O", "AUU": "AU", "OEE": "OE"}


def quality(v):
    return LONG.get(v, v)


def check_roman(pid):
    rep = Report(pid, "symbolic text of the romanization compared, for every component combination, with the "
                      "sound values of the Royal Thai General System (tone and vowel length not written)")
    ctx = Ctx()
    for (i, s, v, e, t), text, where in sweep(rep, ctx, NOTATIONS["Roman"]):
        want = RTGS_I[i] + RTGS_S[s] + RTGS_V[quality(v)] + RTGS_E[e]
        got = text.decode("utf8", "replace")
        if got != want:
            # one report per component that is off
            key = "roman/%s-%s-%s-%s" % (i, s, v, e)
            if len(rep.viol) < 20:
                rep.violation(key, where, "syllable %s is romanized as %r instead of %r" % ("-".join((i, s, v, e)), got, want))
        else:
            rep.ok()
            if rep.obligations % 9001 == 1:
                rep.sample("%s -> %s" % ("-".join((i, s, v, e, t)), got))
    rep.floor("syllables", 1 if rep.unres or rep.viol else 90000)
    return rep


# ---------------------------------------------------------------------------
# C10: phonetic / soundex keys

def check_keys(pid):
    rep = Report(pid, "symbolic texts of the phonetic and soundex notations tabulated over every component "
                      "combination: phonetic must be injective, soundex must be equal exactly for syllables that "
                      "agree in initial sound (r and l alike), vowel quality and final")
    ctx = Ctx()

    def run(cls, proj, label):
        byt, byk = {}, {}
        for names, text, where in sweep(rep, ctx, cls):
            if names[1] != "NONE" and names[0] not in CLUSTER:
                continue
            k = proj(names)
            a = byt.setdefault(text, k)
            b = byk.setdefault(k, text)
            if a != k:
                if len(rep.viol) < 20:
                    rep.violation("%s/same/%s" % (cls, text.decode("utf8", "replace")), where,
                                  "syllables %s and %s are both written %r in the %s notation" % (
                                      "-".join(a), "-".join(k), text.decode("utf8", "replace"), label))
            elif b != text:
                if len(rep.viol) < 20:
                    rep.violation("%s/split/%s" % (cls, "-".join(k)), where,
                                  "%s syllables that agree in %s are written both %r and %r" % (
                                      label, "-".join(k), b.decode(), text.decode()))
            else:
                rep.ok()
        rep.count(label + "_texts", len(byt))

    run(NOTATIONS["Phonetic"], lambda n: n, "phonetic")
    run(NOTATIONS["Soundex"], lambda n: ("LA" if n[0] == "RA" else n[0], quality(n[2]), n[3]), "soundex")
    return rep


# ---------------------------------------------------------------------------
# C07: raw codes and dictionary codes

def check_codes(pid):
    rep = Report(pid, "symbolic text of the raw notation fed to the dictionary-code constructor: every component "
                      "must come back, code texts have five letters, '@' and the end position")
    ctx = Ctx()
    desc = [f for f in ctx.p.fns.values() if f["f"]["n"] == "Syl::Syl" and len(f["f"]["pt"]) == 2
            and ctx.p.cat(f["f"]["pt"][0]) in ("rec", "ref") and ctx.p.cat(f["f"]["pt"][1]) == "int"]
    if not desc:
        raise AnalysisBroken("constructor Syl(description, int) not found")
    cls = NOTATIONS["Raw"]
    r, e, syms, fn = ctx.render(cls)
    where = "%s:%s" % (fn["tu"], fn["name"])
    for st, exc in e.thrown[0]:
        rep.violation("%s/throws" % cls, where, "raw notation throws %s" % exc, st.trace())
    for st, v in r:
        if v[0] != "s" or st.taint:
            rep.unresolved("raw", "raw text not determined %s" % (v,))
            continue
        n0 = len(e.thrown[0])
        st.store[("t", 0, "d")] = v
        back = e.construct_val(st, {"k": "ctor", "l": "entry", "t": "Syl"}, desc[0]["f"], ctx.p.ty("Syl"),
                               [("ref", ("t", 0, "d"), ()), ("l", (), -1)])
        for s2, exc in e.thrown[0][n0:]:
            if s2.taint:
                rep.unresolved("raw-read", "possible exception %s" % exc)
            else:
                cube = [[ctx.names[i][a] for a in members(e, s2, s, i, ctx)] for i, s in enumerate(syms)]
                rep.violation("raw-read/throws", s2.trace()[-1].split(" ")[0], "dictionary reader throws %s for the raw "
                              "code of syllables %s" % (exc, brief(cube)), s2.trace())
        for s2, val in back:
            rep.count("paths")
            if s2.taint or val[0] != "r":
                rep.unresolved("raw-read", "reader result not determined %s" % (s2.taint,))
                continue
            got = accessors(ctx, e, s2, val)
            for i, c in enumerate(COMP):
                g = got[c]
                s = syms[i]
                bad = None
                if g[0] == "f" and g[1] == s:
                    u = e.symuni[s]
                    for j in range(len(u.atoms)):
                        if s2.dom[s] >> j & 1:
                            x = g[2].vals[j]
                            rep.ok()
                            rep.count("component_values")
                            if x != u.atoms[j]:
                                nm = ctx.names[i]
                                rep.violation("raw-read/%s/%s" % (c, nm[u.atoms[j]]), desc[0]["l"] if "l" in desc[0] else desc[0]["tu"],
                                              "raw code of %s %s is read back as %s" % (c, nm[u.atoms[j]], nm.get(x, x)), s2.trace())
                elif g[0] in ("f", "l", "c"):
                    # constant or function of another symbol: compare by evaluation
                    u = e.symuni[s]
                    ms = members(e, s2, s, i, ctx)
                    gv = const_of(g)
                    if gv is not None and ms == [gv]:
                        rep.ok()
                        rep.count("component_values")
                    elif gv is not None or g[0] == "f":
                        rep.violation("raw-read/%s" % c, desc[0]["tu"], "component %s of a raw code is not read back (%s)" % (c, g), s2.trace())
                    else:
                        rep.unresolved("raw-read/%s" % c, str(g))
                else:
                    rep.unresolved("raw-read/%s" % c, str(g))
            g = got["endPos"]
            if g == ("l", ((("syl", "endPos"), 1),), 0):
                rep.ok()
            elif g[0] == "unk":
                rep.unresolved("raw-read/endPos", str(g))
            else:
                rep.violation("raw-read/endPos", desc[0]["tu"], "end position of a raw code is not read back: %s" % (g,), s2.trace())
    rep.floor("component_values", 1 if rep.unres or rep.viol else 21 + 4 + 24 + 9 + 5)
    return rep


def const_of(v):
    if v[0] == "l" and not v[1]:
        return v[2]
    if v[0] == "c":
        return v[1]
    return None


def accessors(ctx, e, st, val):
    st.store[("t", 0, "acc")] = val
    out = {}
    for c in COMP + ("endPos",):
        f = ctx.p.fn("Syl::" + c)
        r = e.invoke(st, f, [], ("ref", ("t", 0, "acc"), ()), {"k": "call", "l": "entry"})
        out[c] = e.val(r[0][0], r[0][1]) if len(r) == 1 else ("unk", "accessor")
    return out


# ---------------------------------------------------------------------------
# C08: Thai respelling

INITIALS = {"KA": "ก", "KHA": "ขฃคฅฆ", "NGA": "ง", "JA": "จ", "CHA": "ฉชฌ", "YA": "ญย", "DA": "ฎด", "TA": "ฏต",
            "THA": "ฐฑฒถทธ", "NA": "ณน", "BA": "บ", "PA": "ป", "PHA": "ผพภ", "FA": "ฝฟ", "MA": "ม", "RA": "ร",
            "LA": "ลฬ", "WA": "ว", "SA": "ซศษส", "HA": "หฮ", "A": "อ"}
SOUND = {c: k for k, cs in INITIALS.items() for c in cs}
HIGH = set("ขฃฉฐถผฝศษสห")
MID = set("กจฎดฏตบปอ")
SONORANT = set("งญยณนมรลฬว")
FINALS = {"KOK": "กขคฆ", "KOT": "จชซฎฏฐฑฒดตถทธศษส", "KOP": "บปพฟภ", "KONG": "ง", "KON": "ณญนรลฬ",
          "KOM": "ม", "KOEY": "ย", "KOEW": "ว"}
FINAL = {c: k for k, cs in FINALS.items() for c in cs}
PHINTHU = "ฺ"
MARKS = {"่": "EK", "้": "THO", "๊": "TRI", "๋": "CHATTAWA"}
DEADFIN = {"KOK", "KOT", "KOP"}


def onset(s):
    """(sound, second, class) of an onset text, or None"""
    cls = None
    if len(s) >= 3 and s[0] == "ห" and s[1] == PHINTHU and s[2] in SONORANT and not (len(s) == 3 and False):
        # a silent leading h makes a sonorant high class
        c, rest, cls = s[2], s[3:], "HIGH"
    elif s and s[0] in SOUND:
        c, rest = s[0], s[1:]
        cls = "HIGH" if c in HIGH else "MID" if c in MID else "LOW"
    else:
        return []
    out = []
    if not rest:
        out.append((SOUND[c], "NONE", cls))
    elif len(rest) == 2 and rest[0] == PHINTHU and rest[1] in "รลว":
        out.append((SOUND[c], {"ร": "RA", "ล": "LA", "ว": "WA"}[rest[1]], cls))
    if s[0] == "ห" and len(s) == 3 and s[1] == PHINTHU and s[2] in "รลว":
        out.append(("HA", {"ร": "RA", "ล": "LA", "ว": "WA"}[s[2]], "HIGH"))
    return out


def tones(cls, mark, dead, short):
    if mark == "":
        if cls == "MID":
            return {"EK"} if dead else {"SAMAN"}
        if cls == "HIGH":
            return {"EK"} if dead else {"CHATTAWA"}
        return ({"TRI"} if short else {"THO"}) if dead else {"SAMAN"}
    if cls == "MID":
        return {mark}
    if cls == "HIGH":
        return {mark} if mark in ("EK", "THO") else set()
    return {"EK": {"THO"}, "THO": {"TRI"}, "CHATTAWA": {"CHATTAWA"}}.get(mark, set())


A_, HAN, AA_ = "ะ", "ั", "า"
I_, II_, UE_, UEE_, U_, UU_ = "ิ", "ี", "ึ", "ื", "ุ", "ู"
E_, AE_, O_ = "เ", "แ", "โ"
TAIKHU = "็"

# (lead, after onset, after tone, final allowed: '' none, 'F' required, 'F?' optional; vowel, short mark allowed)
RHYMES = [
    ("", "", A_, "", "A"), ("", HAN, "", "F-w", "A"),
    ("", "", AA_, "F?", "AA"),
    ("", I_, "", "F?", "I"), ("", II_, "", "F?", "II"), ("", UE_, "", "F?", "UE"),
    ("", UEE_, "อ", "", "UEE"), ("", UEE_, "", "F", "UEE"),
    ("", U_, "", "F?", "U"), ("", UU_, "", "F?", "UU"),
    (E_, "", A_, "", "E"), (E_, "*", "", "F", "E"), (E_, "", "", "F?-y", "EE"),
    (AE_, "", A_, "", "AE"), (AE_, "*", "", "F", "AE"), (AE_, "", "", "F?", "AEE"),
    (O_, "", A_, "", "O"), ("", "", "", "F", "O"), (O_, "", "", "F?", "OO"),
    (E_, II_, "ย" + A_, "", "IA"), (E_, II_, "ย", "F?", "IAA"),
    (E_, UEE_, "อ" + A_, "", "UEA"), (E_, UEE_, "อ", "F?", "UEAA"),
    ("", HAN, "ว" + A_, "", "UA"), ("", "*", "ว", "F", "UA"), ("", HAN, "ว", "", "UAA"), ("", "", "ว", "F", "UAA"),
    (E_, "", AA_ + A_, "", "AU"), ("", "*", "อ", "F", "AU"), ("", "", "อ", "F?", "AUU"),
    (E_, "", "อ" + A_, "", "OE"), (E_, "", "อ", "", "OEE"), (E_, I_, "", "F", "OEE"),
]
SHORTV = {"A", "I", "UE", "U", "E", "AE", "IA", "UEA", "UA", "O", "AU", "OE"}


def readings(s):
    """All standard readings of a respelled Thai syllable."""
    out = set()
    for lead, mid, tail, fin, vowel in RHYMES + [(E_, "", AA_, "=KOEW", "A"), (E_, "", "ย", "=KOEY", "OEE")]:
        if not s.startswith(lead):
            continue
        body = s[len(lead):]
        fins = []
        if fin.startswith("="):
            fins.append((body, fin[1:]))
        else:
            if fin in ("", "F?", "F?-y"):
                fins.append((body, "NONE"))
            if fin.startswith("F") and body and body[-1] in FINAL:
                f = FINAL[body[-1]]
                if not (fin.endswith("-w") and f == "KOEW") and not (fin.endswith("-y") and f == "KOEY"):
                    fins.append((body[:-1], f))
        for b, f in fins:
            if tail:
                if not b.endswith(tail):
                    continue
                b = b[:-len(tail)]
            mark = ""
            short = vowel in SHORTV
            if b and b[-1] in MARKS:
                mark = MARKS[b[-1]]
                b = b[:-1]
            elif mid == "*":
                # the shortening mark, which a tone mark replaces
                if not b.endswith(TAIKHU):
                    continue
                b = b[:-1]
            if mid not in ("", "*"):
                if not b.endswith(mid):
                    continue
                b = b[:-len(mid)]
            dead = f in DEADFIN or (short and f == "NONE")
            for snd, sec, cls in onset(b):
                for t in tones(cls, mark, dead, short):
                    out.add((snd, sec, vowel, f, t))
    return out


def speakable(i, s, v, e, t):
    """Syllables the respelling can express at all."""
    dead = e in DEADFIN or (v in SHORTV and e == "NONE")
    if dead and t == "SAMAN":
        return False                  # no such syllable: there is no level-tone dead syllable
    if v in ("IA", "UEA", "OE") and e != "NONE":
        return False                  # these short vowels only occur in open syllables
    if e == "KOEY" and v in ("E", "EE"):
        return False                  # no such rhyme; the spelling means OEE+KOEY
    if s != "NONE" and i not in CLUSTER:
        return False
    return True


def check_thai(pid):
    rep = Report(pid, "symbolic text of the Thai respelling tabulated over every component combination and read "
                      "back with an independent table of Thai spelling rules (consonant classes, tone marks, vowel "
                      "forms); the intended syllable must be among the readings")
    ctx = Ctx()
    cache = {}
    groups = {}
    for names, text, where in sweep(rep, ctx, NOTATIONS["Thai"]):
        if not speakable(*names):
            rep.count("not_expressible")
            continue
        rd = cache.get(text)
        if rd is None:
            rd = cache[text] = readings(text.decode("utf8", "replace"))
        if names in rd:
            rep.ok()
            if rep.obligations % 6001 == 1:
                rep.sample("%s -> %s" % ("-".join(names), text.decode()))
            continue
        g = (names[2], names[3] if names[3] in ("NONE", "KOEW", "KOEY") else "*", names[4])
        groups.setdefault(g, []).append((names, text, rd, where))
    for g, l in list(groups.items())[:12]:
        names, text, rd, where = l[0]
        rep.violation("thai/%s" % "-".join(g), where, "syllable %s is respelled %r, which reads %s (%d such syllables)" % (
            "-".join(names), text.decode("utf8", "replace"), ["-".join(x) for x in sorted(rd)] or "as nothing", len(l)))
    rep.floor("syllables", 1 if rep.unres or rep.viol else 90000)
    return rep


def check(pid):
    return {"C06": check_total, "C07": check_codes, "C08": check_thai, "C09": check_roman, "C10": check_keys}[pid](pid)
