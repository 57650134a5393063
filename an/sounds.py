"""What Thai spelling says about one syllable: used on every syllable the
parser analysis sees being attached to the graph (C04, C05, C24)."""
from dom import aff_add, I
from engine import const
from notation import SOUND, HIGH, MID, SONORANT, FINAL, MARKS, DEADFIN, SHORTV, tones

CONS = set(SOUND)
RU, LU, LAK = "ฤ", "ฦ", "ๅ"
LEAD = set("เแโใไ")
A_, HAN, AA_, AM = "ะ", "ั", "า", "ำ"
I_, II_, UE_, UEE_, U_, UU_ = "ิ", "ี", "ึ", "ื", "ุ", "ู"
TAIKHU = "็"
SIGNS = set(A_ + HAN + AA_ + AM + I_ + II_ + UE_ + UEE_ + U_ + UU_ + TAIKHU)
TONEMARK = set(MARKS)
FINALS = dict(FINAL)
for c, v in (("ฃ", "KOK"), ("ฅ", "KOK"), ("ฌ", "KOT"), ("ฉ", "KOT"), ("ผ", "KOP"), ("ฝ", "KOP")):
    FINALS.setdefault(c, v)
ANYFINAL = set("ฃฅฉฌผฝ")          # hardly ever written at the end of a syllable

# each vowel with the sets of signs that write it; '' stands for an implied vowel
VOWELS = {
    "A": [A_, HAN, AM, "เ" + AA_, "ไ", "ใ", "รร", "-a"],
    "AA": [AA_], "I": [I_, RU, LU], "II": [II_], "UE": [UE_, RU, LU], "UEE": [UEE_, (RU + LU, LAK + AA_)],
    "U": [U_], "UU": [UU_], "E": ["เ" + A_, "เ" + TAIKHU], "EE": ["เ"], "AE": ["แ" + A_, "แ" + TAIKHU], "AEE": ["แ"],
    "IA": ["เ" + II_ + "ย" + A_], "IAA": ["เ" + II_ + "ย"], "UEA": ["เ" + UEE_ + "อ" + A_], "UEAA": ["เ" + UEE_ + "อ"],
    "UA": [HAN + "ว" + A_], "UAA": ["ว"], "O": ["โ" + A_, "-o"], "OO": ["โ"],
    "AU": ["เ" + AA_ + A_, TAIKHU + "อ"], "AUU": ["อ", "-au"], "OE": ["เ" + "อ" + A_], "OEE": ["เ" + I_, "เ" + "อ", "เ" + "ย"],
}
# signs that may not stand in a syllable with this vowel
ALLOWED = {v: set("".join("".join(x) for x in alt if x[0] != "-")) for v, alt in VOWELS.items()}
ALLOWED["UAA"].add(HAN)


def cls_of(c):
    return "HIGH" if c in HIGH else "MID" if c in MID else "LOW"


class Sounds:
    def __init__(self, m, eng):
        self.m = m
        self.eng = eng
        self.u = eng.charuni()
        self.name = {}
        for e in ("EInitConsSound", "ESecInitCons", "EVowel", "EEndConsClass", "ETone"):
            self.name[e] = {v: n for n, v in eng.p.enums[e]}
        self.fields = (("iCons1", "EInitConsSound"), ("iCons2", "ESecInitCons"), ("vowel", "EVowel"),
                       ("eCons", "EEndConsClass"), ("tone", "ETone"))
        self.cache = {}
        self.masks = {}
        self.sets = {}
        self.ch = [chr(a) for a in self.u.atoms]

    def mask(self, chars):
        key = chars if isinstance(chars, str) else frozenset(chars)
        r = self.masks.get(key)
        if r is None:
            r = 0
            for i, c in enumerate(self.ch):
                if c in chars:
                    r |= 1 << i
            self.masks[key] = r
        return r

    def chars(self, m):
        r = self.sets.get(m)
        if r is None:
            r = self.sets[m] = frozenset(c for i, c in enumerate(self.ch) if m >> i & 1)
        return r

    def judge(self, st, base, end, lab, role, pre):
        """[(kind, ok, message)] for one syllable.  role: 'normal', 'pre', 'second'."""
        m = self.m
        vals = {}
        for f, en in self.fields:
            v = lab[2][m.syl[f]]
            if v[0] == "f":
                vals[f] = v
            else:
                c = const(v)
                if c is None:
                    return [("complete", None, "component %s is not followed" % f)]
                vals[f] = ("k", self.name[en].get(c, str(c)))
        env = {}
        for s, mk in st.dom.items():
            if s[0] == "ch" and s[1] == "W":
                d = aff_add(s[2], base, -1)
                if not d[1]:
                    env[d[2]] = mk
        kd = aff_add(end, base, -1) if end is not None else None
        k = kd[2] if kd is not None and not kd[1] else None
        syms = {}
        for f, en in self.fields:
            v = vals[f]
            if v[0] == "f":
                off = None
                if v[1][0] == "ch":
                    d = aff_add(v[1][2], base, -1)
                    off = d[2] if not d[1] else None
                syms[v[1]] = off
                mk = st.dom.get(v[1], v[2].uni.full)
                vals[f] = ("f", off, v[2], mk, v[1])
        key = (role, pre, k, tuple(sorted(env.items())), tuple((f, vals[f]) for f, _ in self.fields))
        r = self.cache.get(key)
        if r is None:
            d = {}
            for kind, ok, msg in self.work(vals, env, k, role, pre):
                if kind not in d or ok is None or ok is False and d[kind][1] is True:
                    d[kind] = (kind, ok, msg)
            r = self.cache[key] = list(d.values())
        return r

    def cases(self, v, en):
        """[(name, offset or None, mask)]: possible values of a component"""
        if v[0] == "k":
            return [(v[1], None, 0)]
        out = []
        for val, pm in v[2].pre.items():
            if pm & v[3]:
                out.append((self.name[en].get(val, str(val)), v[1], pm & v[3]))
        return out

    def work(self, vals, env, k, role, pre):
        res = []
        for f, en in self.fields:
            bad = [n for n, o, mk in self.cases(vals[f], en) if n == "INVALID" or n not in self.name[en].values()]
            res.append(("complete", not bad, "%s can still be %s" % (f, bad[:1])))
            if bad:
                return res
        # where the initial letters are
        full = self.u.full
        lead = self.mask(LEAD)
        m0 = env.get(0, full)
        splits = []
        if m0 & lead:
            splits.append((1, m0 & lead))
        if m0 & ~lead:
            splits.append((0, m0 & ~lead))
        for f, mk0 in splits:
            e2 = dict(env)
            e2[0] = mk0
            res += self.rules(vals, e2, k, role, pre, f)
        return res

    def letters(self, env, off):
        m = env.get(off)
        return None if m is None else self.chars(m)

    def narrow(self, env, case):
        if case[1] is None:
            return env
        e = dict(env)
        e[case[1]] = case[2] & env.get(case[1], self.u.full)
        return e

    def sure(self, env, off, letters):
        """Is the character at off certainly one of these?"""
        m = env.get(off)
        return m is not None and not m & ~self.mask(letters)

    def has(self, env, c, lo, hi):
        return any(lo <= o < hi and self.sure(env, o, c) for o in env)

    def rules(self, vals, env, k, role, pre, f):
        res = []
        hi = k if k is not None and role != "pre" else 99 if role != "pre" else f + 1
        # initial sound
        s = f + 1 if role == "second" else f
        for case in self.cases(vals["iCons1"], "EInitConsSound"):
            e = self.narrow(env, case)
            if not all(e.values()):
                continue
            snd = case[0]
            ls = self.letters(e, s)
            ok = False
            if ls is None:
                ok = False
            else:
                ok = all(SOUND.get(c) == snd or c == RU and snd == "RA" or c == LU and snd == "LA" for c in ls)
                if not ok and role == "normal" and self.sure(e, f, "ห"):
                    l2 = self.letters(e, f + 1)
                    ok = l2 is not None and all(c in SONORANT and SOUND[c] == snd for c in l2)
                if not ok and role == "second" and snd == "RA":
                    ok = self.sure(e, s, RU + "ร")
            res.append(("initial", ok, "initial sound %s for the letters %s" % (snd, self.show(e, s))))
        for case in self.cases(vals["iCons2"], "ESecInitCons"):
            e = self.narrow(env, case)
            n = case[0]
            if n == "NONE":
                ok = True
                if role == "normal" and k is not None and k > f + 2 and self.sure(e, f + 1, "รลว") and self.sure(e, f + 2, (SIGNS | TONEMARK) - set(I_ + U_)):
                    ok = self.sure(e, f, "จซศสห")
                res.append(("initial", ok, "the second initial letter %s is not sounded" % self.show(e, f + 1)))
            else:
                want = {"RA": "ร" + RU, "LA": "ล", "WA": "ว"}[n]
                res.append(("initial", self.sure(e, s + 1, want), "second initial sound %s for the letter %s" % (n, self.show(e, s + 1))))
        # vowel
        for case in self.cases(vals["vowel"], "EVowel"):
            e = self.narrow(env, case)
            if not all(e.values()):
                continue
            v = case[0]
            ok = any(self.vowelalt(alt, e, f, hi, k, role, pre, vals) for alt in VOWELS[v])
            if ok:
                for o in e:
                    if f < o < hi:
                        c = self.letters(e, o)
                        if c and c <= {A_, TAIKHU, HAN, AA_, I_, II_, UE_, UEE_, U_, UU_, AM} and not c & ALLOWED[v]:
                            if not self.karan(e, o, hi) and not (c <= {AA_} and v == "A") and not (c <= set(I_ + U_) and self.finalsign(e, o, f)):
                                ok = False
            res.append(("vowel", ok, "vowel %s for %s" % (v, self.spell(e, 0, min(hi, 9)))))
        # final
        for case in self.cases(vals["eCons"], "EEndConsClass"):
            e = self.narrow(env, case)
            if not all(e.values()):
                continue
            n = case[0]
            if n == "NONE":
                ok = True
                if k is not None and role != "pre" and k - 1 >= s + 2:
                    ok = not self.sure(e, k - 1, CONS - set("อวย"))
            else:
                ok = any(s < o <= hi and all(FINALS.get(c) == n or c in ANYFINAL for c in self.letters(e, o)) for o in e)
                ok = ok or n == "KOM" and self.has(e, AM, f, hi) or n == "KOEW" and self.has(e, "เ", 0, 1) and self.has(e, AA_, f, hi)
                ok = ok or n == "KOEY" and self.has(e, "ไใ", 0, 1)
            res.append(("final", ok, "final %s for %s" % (n, self.spell(e, s, min(hi, 9) + 1))))
        res += self.tonerule(vals, env, k, role, pre, f, hi)
        return res

    def karan(self, e, o, hi):
        return self.sure(e, o + 1, "์") and o + 1 < hi

    def finalsign(self, e, o, f):
        return o - 1 > f and self.sure(e, o - 1, CONS)

    def vowelalt(self, alt, e, f, hi, k, role, pre, vals):
        if alt == "-a":
            # unwritten a: a leading half syllable, or a consonant alone
            if vals["eCons"] != ("k", "NONE"):
                return False
            return role == "pre" or role == "normal" and k == f + 1 or role == "second"
        if alt == "-o":
            return vals["eCons"][0] == "f" or vals["eCons"][1] != "NONE"
        if alt == "-au":
            if role == "pre":
                return self.sure(e, f + 1, "ร")
            if k == f + 1:
                return True
            return vals["eCons"] == ("k", "NONE") and k == f + 2 and self.sure(e, f + 1, ".") or \
                any(f < o < hi and self.sure(e, o, "ร") for o in e) and vals["eCons"] == ("k", "KON")
        if alt == "รร":
            return sum(1 for o in e if f < o < hi and self.sure(e, o, "ร")) >= 2
        need = list(alt)
        for c in need:
            if c[0] in LEAD:
                if not (f == 1 and self.sure(e, 0, c)):
                    return False
            elif c[0] in (RU, LU):
                if not any(self.sure(e, o, c) for o in (f, f + 1)):
                    return False
            elif not self.has(e, c, f + 1, hi):
                return False
        if need[0] not in LEAD and f == 1 and alt not in (HAN,):
            return False
        return True

    def tonerule(self, vals, env, k, role, pre, f, hi):
        """The tone against the tone rules, over all combinations."""
        s = f + 1 if role == "second" else f
        # which letter gives the class
        offs = []
        if role == "second":
            offs = [f, f + 1]
        else:
            offs = [f]
        marks = [o for o in env if f < o < hi and env[o] & self.mask(TONEMARK)] if role != "pre" else []
        # signatures of the symbols involved
        syms = {}

        def addsym(key, mk, n):
            syms.setdefault(key, [mk, n])
        for fl, en in self.fields:
            v = vals[fl]
            if fl in ("vowel", "eCons", "tone") and v[0] == "f":
                if v[1] is not None:
                    addsym(("ch", v[1]), env.get(v[1], v[3]) & v[3], None)
                else:
                    addsym(("x", v[4]), v[3], None)
        for o in offs + marks:
            if o not in env:
                return [("tone", False, "the consonant at offset %d is not examined" % o)]
            addsym(("ch", o), env[o], None)
        keys = list(syms)
        sigs = []
        for key in keys:
            mk = syms[key][0]
            d = {}
            i = 0
            mm = mk
            while mm:
                if mm & 1:
                    sg = []
                    for fl, en in self.fields:
                        v = vals[fl]
                        if fl in ("vowel", "eCons", "tone") and v[0] == "f" and (("ch", v[1]) if v[1] is not None else ("x", v[4])) == key:
                            sg.append((fl, self.name[en].get(v[2].vals[i], "?")))
                    if key[0] == "ch":
                        c = self.ch[i]
                        if key[1] in offs:
                            sg.append(("cls", cls_of(c) if c in CONS else c))
                            sg.append(("son", c in SONORANT))
                        if key[1] in marks:
                            sg.append(("mark", MARKS.get(c, "")))
                    d.setdefault(tuple(sg), i)
                mm >>= 1
                i += 1
            sigs.append([(sg, i) for sg, i in d.items()])
        n = 1
        for x in sigs:
            n *= len(x)
        if n > 20000:
            return [("tone", None, "too many combinations")]
        bad = None
        import itertools
        for combo in itertools.product(*sigs):
            comp = {fl: vals[fl][1] for fl in ("vowel", "eCons", "tone") if vals[fl][0] == "k"}
            cl = {}
            mk = set()
            for key, (sg, i) in zip(keys, combo):
                for x in sg:
                    if x[0] in ("vowel", "eCons", "tone"):
                        comp[x[0]] = x[1]
                    elif x[0] == "cls":
                        cl.setdefault(key[1], [None, None])[0] = x[1]
                    elif x[0] == "son":
                        cl.setdefault(key[1], [None, None])[1] = x[1]
                    elif x[0] == "mark" and x[1]:
                        mk.add(x[1])
            short = comp["vowel"] in SHORTV
            dead = comp["eCons"] in DEADFIN or comp["eCons"] == "NONE" and short
            classes = set()
            c1 = cl[f][0]
            if role == "second":
                c2, son = cl[f + 1]
                if c2 in (RU, LU):
                    classes = {"LOW", c1}
                elif pre == "AUU":
                    classes = {c2}
                else:
                    classes = {c1 if son else c2}
            else:
                classes = {"LOW" if c1 in (RU, LU) else c1}
            want = set()
            free = False
            for c in classes:
                for mm in mk or {""}:
                    t = tones(c, mm, dead, short)
                    want |= t
                    if not t:
                        free = True
            if not free and comp["tone"] not in want:
                bad = "tone %s for class %s, mark %s, %s %s syllable: should be %s" % (
                    comp["tone"], "/".join(sorted(classes)), "/".join(mk) or "none", "dead" if dead else "live",
                    "short" if short else "long", "/".join(sorted(want)))
                bad += " (%s)" % self.spell(env, 0, min(hi, 9))
                break
        return [("tone", bad is None, bad or "")]

    def show(self, e, off):
        m = e.get(off)
        if m is None:
            return "?"
        cs = sorted(self.chars(m))
        return "".join(cs) if len(cs) <= 8 else "[%d letters]" % len(cs)

    def spell(self, e, lo, hi):
        return " ".join(self.show(e, o) for o in range(lo, hi))
