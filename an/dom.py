"""Abstract domains.

Values are tuples tagged by their first element:

  ('c', v)              a known value of a finite type (bool, enum, char) or null
  ('l', terms, k)       integer: affine form  sum(coef*sym) + k
  ('f', sym, fmap)      value that is a function of the finite symbol `sym`
  ('s', pieces)         string: concatenation of pieces (str | ('f',..) | other)
  ('r', cls, values)    record; values in layout order
  ('ref', root, path)   address / reference
  ('L', elems, may0)    sequence summarised by the set of its guarded elements
  ('S', frozenset)      exactly known set of constants
  ('M', items)          exactly known table: tuple of (key const, value)
  ('A', elems)          exactly known array / vector
  ('unk', why)          nothing known

Finite symbols range over a universe (a list of atoms); a state keeps a bit
mask of the atoms still possible.  Integers are related by difference bounds.
"""


class Uni:
    """A finite universe of atoms."""
    _all = {}

    def __init__(self, name, atoms):
        self.name = name
        self.atoms = tuple(atoms)
        self.idx = {a: i for i, a in enumerate(self.atoms)}
        self.full = (1 << len(self.atoms)) - 1
        self.ident = fmap(self, self.atoms)
        Uni._all[name] = self

    def mask(self, pred):
        m = 0
        for i, a in enumerate(self.atoms):
            if pred(a):
                m |= 1 << i
        return m

    def members(self, m):
        return [a for i, a in enumerate(self.atoms) if m >> i & 1]


class FMap:
    """Total function from a universe to Python values (interned)."""
    __slots__ = ("uni", "vals", "pre", "_cache", "_h")

    def __init__(self, uni, vals):
        self.uni = uni
        self.vals = vals
        self._h = hash((uni.name, vals))
        pre = {}
        for i, v in enumerate(vals):
            pre[v] = pre.get(v, 0) | (1 << i)
        self.pre = pre
        self._cache = {}

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return (self.uni.name, repr(self.vals)) < (o.uni.name, repr(o.vals))

    def __repr__(self):
        return "<%s:%d>" % (self.uni.name, len(self.pre))

    def image(self, mask):
        return [v for v, m in self.pre.items() if m & mask]


_fmaps = {}


def fmap(uni, vals):
    # True == 1 in Python: keep boolean and integer maps apart
    k = (uni.name, tuple(vals), tuple(map(type, vals)))
    m = _fmaps.get(k)
    if m is None:
        m = _fmaps[k] = FMap(uni, tuple(vals))
    return m


class Undef:
    """Result of a partial function outside its domain."""
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "<undef %s>" % self.why

    def __hash__(self):
        return hash(self.why)

    def __eq__(self, o):
        return isinstance(o, Undef) and o.why == self.why


UNDEF = Undef("undef")

# -- affine integers -------------------------------------------------------


def I(k):
    return ("l", (), k)


def sym(s, k=0):
    return ("l", ((s, 1),), k)


def aff_add(a, b, sb=1):
    t = dict(a[1])
    for s, c in b[1]:
        n = t.get(s, 0) + sb * c
        if n:
            t[s] = n
        else:
            t.pop(s, None)
    return ("l", tuple(sorted(t.items(), key=lambda x: str(x[0]))), a[2] + sb * b[2])


def aff_scale(a, k):
    if k == 0:
        return I(0)
    return ("l", tuple((s, c * k) for s, c in a[1]), a[2] * k)


Z = "0"   # the symbol whose value is zero


class DBM:
    """Difference bounds  a - b <= c  over symbols, kept closed."""
    __slots__ = ("d",)

    def __init__(self, d=None):
        self.d = d if d is not None else {}

    def copy(self):
        return DBM(dict(self.d))

    def get(self, a, b):
        if a == b:
            return 0
        return self.d.get((a, b))

    def syms(self):
        s = set()
        for a, b in self.d:
            s.add(a)
            s.add(b)
        return s

    def add(self, a, b, c):
        """Add a - b <= c.  Returns False when inconsistent."""
        if a == b:
            return c >= 0
        d = self.d
        o = d.get((a, b))
        if o is not None and o <= c:
            return True
        r = d.get((b, a))
        if r is not None and r + c < 0:
            return False
        ins = [(a, 0)]   # x with x - a <= k
        outs = [(b, 0)]  # y with b - y <= k
        for (x, y), k in d.items():
            if y == a and x != b:
                ins.append((x, k))
            elif x == b and y != a:
                outs.append((y, k))
        for x, k1 in ins:
            for y, k2 in outs:
                if x == y:
                    if k1 + c + k2 < 0:
                        return False
                    continue
                n = k1 + c + k2
                o = d.get((x, y))
                if o is None or n < o:
                    d[(x, y)] = n
        return True

    def forget(self, s):
        self.d = {k: v for k, v in self.d.items() if k[0] != s and k[1] != s}

    def restrict(self, keep):
        self.d = {k: v for k, v in self.d.items() if k[0] in keep and k[1] in keep}

    def rename(self, m):
        self.d = {(m.get(a, a), m.get(b, b)): c for (a, b), c in self.d.items()}

    def join(self, o):
        d = {}
        od = o.d
        for k, v in self.d.items():
            w = od.get(k)
            if w is not None:
                d[k] = v if v >= w else w
        return DBM(d)

    def widen(self, o):
        """self is the previous iterate; keep only bounds `o` does not exceed."""
        d = {}
        od = o.d
        for k, v in self.d.items():
            w = od.get(k)
            if w is None:
                continue
            if w <= v:
                d[k] = v
            elif w <= 0:
                d[k] = -1 if w <= -1 else 0
        return DBM(d)

    def leq(self, o):
        """self at least as precise as o."""
        for k, v in o.d.items():
            w = self.d.get(k)
            if w is None or w > v:
                return False
        return True
