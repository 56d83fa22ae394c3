"""Random grammars, values (valid and invalid) and their ASN.1 text."""
from .model import *

I64MIN, I64MAX, U64MAX = -(1 << 63), (1 << 63) - 1, (1 << 64) - 1


class Grammar:
    def __init__(self):
        self.types = []          # [Assignment], in order of dependence
        self.values = []         # [(name, type, value)]
        self.consts = {}         # value references usable as bounds
        self.modname = "MOD-A"
        self.split = None        # index of the first type of the second module (which imports from the first)


class Prof:
    def __init__(self, **kw):
        self.depth = 3
        self.ntypes = (5, 9)
        self.rich = 0.35         # probability of rich constraints
        self.big = 0.02          # probability of a fragmented size
        self.real = True
        self.cont = True
        self.oid = True
        self.refs = 0.3
        self.default = True
        self.values = True
        self.ada = False         # avoid what the Ada back end cannot express
        self.maxelems = 12
        self.kinds = None
        self.wordbits = 64
        self.inner = 0.0         # probability of inner subtyping on a reference to a composite type
        self.edges = 0.0         # probability of an integer range between the edges of two machine types
        self.__dict__.update(kw)


class Gen:
    def __init__(self, r, prof):
        self.r, self.p = r, prof
        self.g = Grammar()
        self.n = 0
        self.cost = {}

    # -------------------------------------------------------------- names
    def fresh(self, pre):
        self.n += 1
        r = self.r
        s = "%s%s%d" % (pre, r.choice(["", "-", "x", "-q-"]), self.n)
        return s

    # -------------------------------------------------------------- integers
    def int_bounds(self):
        r = self.r
        lo_min, lo_max, u_max = (I64MIN, I64MAX, U64MAX) if self.p.wordbits == 64 else (-(1 << 31), (1 << 31) - 1, (1 << 32) - 1)
        if self.p.edges and r.random() < self.p.edges:
            w = r.choice([8, 16, 32] if self.p.wordbits == 64 else [8, 16])
            near = lambda a, b: r.choice([a, a, min(b, a + 1), b, max(a, b - 1), r.randrange(a, b + 1)])
            lo = -near(1, 1 << (w - 1)) - r.choice([0, 0, 1])
            return max(lo, lo_min), min(near((1 << (w - 1)) - 1, (1 << w) - 1) + r.choice([0, 0, 1]), lo_max)
        x = r.random()
        if x < 0.07:
            return lo_min, lo_max
        if x < 0.14:
            return 0, u_max
        if x < 0.2:
            w = r.choice([8, 16, 32, 64] if self.p.wordbits == 64 else [8, 16, 32])
            if r.random() < .5:
                return 0, (1 << w) - 1
            return -(1 << (w - 1)), (1 << (w - 1)) - 1
        bits = r.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 47, 56, 57, 62, 63])
        if self.p.wordbits == 32:
            bits = min(bits, 31)
        width = max(0, (1 << bits) - 1 + r.choice([0, 0, -1, 1]))
        lo = r.choice([0, 0, 0, 1, -1, r.randrange(-20, 20), r.randrange(-300, 300), -(1 << r.randrange(0, 40)), -width // 2])
        if r.random() < .08:
            lo = r.choice([lo_min, lo_max - width, -width])
        lo = max(lo_min, min(lo, (lo_max if lo < 0 else u_max) - width))
        hi = lo + width
        if lo < 0 and hi > lo_max:
            hi = lo_max
        return lo, hi

    def int_atom(self, lo, hi):
        """a range/value inside lo..hi"""
        r = self.r
        a = r.randrange(lo, hi + 1) if r.random() < .7 else r.choice([lo, hi, min(hi, lo + 1), max(lo, hi - 1)])
        if r.random() < .4:
            return ("val", a)
        bnd = min(hi, a + r.choice([0, 1, 2, 5, 16, 200, 1 << 20]))
        li = not (r.random() < .12 and bnd - a >= 3)
        hi_in = not (r.random() < .12 and bnd - a >= 3)
        return ("range", a, bnd, li, hi_in)

    def int_rich(self, lo, hi):
        r = self.r
        k = r.choice(["union", "union", "union3", "except", "inter", "unionexc", "allexc"])
        if k == "union":
            return ("union", self.int_atom(lo, hi), self.int_atom(lo, hi))
        if k == "union3":
            return ("union", ("union", self.int_atom(lo, hi), self.int_atom(lo, hi)), self.int_atom(lo, hi))
        if k == "except":
            return ("except", ("range", lo, hi, True, True), self.int_atom(lo, hi))
        if k == "inter":
            return ("inter", ("union", self.int_atom(lo, hi), ("range", lo, hi, True, True)), ("range", lo, hi, True, True))
        if k == "unionexc":
            return ("union", self.int_atom(lo, hi), ("except", ("range", lo, hi, True, True), self.int_atom(lo, hi)))
        return None

    def int_cons(self):
        r = self.r
        x = r.random()
        if x < .1:
            return []
        lo, hi = self.int_bounds()
        if x < .18:
            return [("range", lo, None, True, True)]
        if x < .23:
            return [("range", None, min(hi, I64MAX if self.p.wordbits == 64 else (1 << 31) - 1), True, True)]
        if x < .23 + self.p.rich:
            c = self.int_rich(lo, hi)
            if c is None:
                cs = [("range", lo, hi, True, True), ("allexcept", self.int_atom(lo, hi))]
            elif r.random() < .3:
                cs = [("range", lo, hi, True, True), c]
            else:
                cs = [c]
            return cs
        li = not (r.random() < .06 and hi - lo > 3)
        hin = not (r.random() < .06 and hi - lo > 3)
        return [("range", lo, hi, li, hin)]

    def t_int(self):
        t = T("INT")
        for _ in range(20):
            t.cons = self.int_cons()
            lo, hi = int_range(t)
            if lo is not None and hi is not None and lo > hi:
                continue
            if self.int_values(t):
                return t
        t.cons = [("range", 0, 255, True, True)]
        return t

    def int_values(self, t):
        """interesting valid values"""
        return [v for v in int_candidates(t, self.p.wordbits) if valid(t, v)]

    # -------------------------------------------------------------- sizes
    def size_bounds(self, cap=None):
        r = self.r
        if cap is None:
            cap = 40
        x = r.random()
        a = r.choice([0, 0, 0, 1, 1, 2, 3, r.randrange(0, 9)])
        w = r.choice([0, 0, 1, 2, 3, 4, 6, 7, 8, 9, 15, 16, 20, 31])
        hi = min(cap, max(a + w, 1))
        return min(a, hi), hi

    def size_cons(self, lo, hi):
        r = self.r
        if lo == hi:
            c = ("val", lo)
        elif r.random() < self.p.rich * .5 and hi - lo >= 2:
            m = r.randrange(lo, hi)
            c = r.choice([("union", ("val", lo), ("range", m, hi, True, True)), ("union", ("range", lo, m, True, True), ("val", hi)),
                          ("range", lo, hi + 1, True, False), ("except", ("range", lo, hi, True, True), ("val", m))])
        else:
            c = ("range", lo, hi, True, True)
        return ("size", c)

    def big_bounds(self):
        r = self.r
        hi = r.choice([127, 128, 255, 256, 16383, 16384, 32768, 49152, 65535, 65536, 65537, 70000, 131072, 140000])
        lo = r.choice([0, 0, 1, hi, max(0, hi - 3)])
        return lo, hi

    def t_oct(self):
        t = T("OCT")
        lo, hi = self.big_bounds() if self.r.random() < self.p.big else self.size_bounds(self.r.choice([6, 40]))
        t.cons = [self.size_cons(lo, hi)]
        if hi <= 4 and self.r.random() < .15:
            # single values inside the size
            vals = set(bytes(self.r.randrange(256) for _ in range(n)) for n in (lo, hi))
            vals = [v for v in vals if len(v) > 0 and holds(t.cons[0], v)]
            if vals:
                c = ("val", vals[0])
                for v in vals[1:]:
                    c = ("union", c, ("val", v))
                t.cons.append(c)
        return t

    def t_bit(self):
        t = T("BIT")
        lo, hi = self.big_bounds() if self.r.random() < self.p.big else self.size_bounds(self.r.choice([9, 40]))
        t.cons = [self.size_cons(lo, hi)]
        if self.r.random() < .12:
            t.named = [(self.fresh("nb"), i) for i in sorted(self.r.sample(range(hi), min(3, hi)))]
        return t

    def from_cons(self, cs):
        r = self.r
        avail = [c for c in cs if c not in '"' and 32 <= ord(c) < 127]
        k = r.choice(["chars", "range", "union"])
        def chars():
            s = "".join(r.sample(avail, min(len(avail), r.choice([1, 2, 3, 4, 5, 8, 11]))))
            return ("chars", s)
        def cr():
            a, b = sorted(r.sample(range(len(avail)), 2))
            li, hi = (r.random() < .75, r.random() < .75) if b - a > 2 else (True, True)
            lo, up = avail[a], avail[b]
            if all(c in CHARSETS["NumericString"] for c in avail):
                lo, up = None if r.random() < .15 else lo, None if r.random() < .15 else up
            return ("crange", lo, up, li or lo is None, hi or up is None)
        if k == "chars":
            return ("from", chars())
        if k == "range":
            return ("from", cr())
        if r.random() < .3:
            x, y = cr(), cr()
            if sum(char_ok(x, c) and char_ok(y, c) for c in avail) > 1:
                return ("from", ("inter", x, y))
        return ("from", ("union", cr(), chars()))

    def t_str(self):
        r = self.r
        t = T("STR", charset=r.choice(["IA5String", "IA5String", "NumericString"]))
        lo, hi = self.big_bounds() if r.random() < self.p.big * .5 else self.size_bounds(r.choice([5, 30]))
        if hi == 0:
            hi = 1
        sc = self.size_cons(lo, hi)
        x = r.random()
        if x < .5:
            t.cons = [sc]
        elif x < .8:
            t.cons = [sc, self.from_cons(CHARSETS[t.charset])]
            if r.random() < .5:
                t.cons.reverse()
        elif x < .9:
            t.cons = [("inter", sc, self.from_cons(CHARSETS[t.charset]))]
        else:
            t.cons = [sc]
            vs = [self.strval(t, n) for n in {lo, hi, (lo + hi) // 2} if n <= 12 and holds(sc, "x" * n)]
            vs = [v for v in vs if v and all(32 <= ord(c) < 127 and c != '"' for c in v)]
            if vs:
                c = ("val", vs[0])
                for v in vs[1:]:
                    c = ("union", c, ("val", v))
                t.cons.append(c)
        return t

    def strval(self, t, n):
        a = [c for c in alphabet(t) if c != "\0"]
        return "".join(self.r.choice(a) for _ in range(n))

    def t_enum(self):
        r = self.r
        n = r.choice([1, 2, 3, 4, 5, 8, 9, 17])
        t = T("ENUM")
        expl = r.random()
        used, items = set(), []
        names = [self.fresh("en") for _ in range(n)]
        for nm in names:
            if expl < .4:
                e = False
            elif expl < .8:
                e = True
            else:
                e = r.random() < .5
            v = None
            if e:
                while v is None or v in used:
                    v = r.choice([r.randrange(0, 40), r.randrange(0, 40), r.randrange(-20, 300), r.randrange(0, 70000)])
                used.add(v)
            items.append([nm, v, e])
        nxt = 0          # X.680 19.3: items without a number get successive unused non negative integers
        for it in items:
            if it[1] is None:
                while nxt in used:
                    nxt += 1
                it[1] = nxt; used.add(nxt)
        t.items = [tuple(x) for x in items]
        if n > 2 and r.random() < .12:
            keep = r.sample(names, r.randrange(1, n))
            val = {x[0]: x[1] for x in items}
            c = ("val", val[keep[0]])
            for k in keep[1:]:
                c = ("union", c, ("val", val[k]))
            t.cons = [c]
        return t

    def t_real(self):
        r = self.r
        t = T("REAL")
        if r.random() < .4:
            lo = r.choice([-1000.0, -10.5, 0.0, 1.25, -1e6])
            hi = lo + r.choice([0.5, 10.0, 1000.0, 2e6])
            t.cons = [("range", r.choice([lo, lo, None]), r.choice([hi, hi, None]), True, True)]
            if t.cons[0][1] is None and t.cons[0][2] is None:
                t.cons = []
        return t

    # -------------------------------------------------------------- structure
    def prim(self):
        r = self.r
        k = r.choice(self.p.kinds or ["INT"] * 6 + ["BOOL"] * 2 + ["NULL", "ENUM", "ENUM", "ENUM", "OCT", "OCT", "BIT", "BIT", "STR", "STR", "STR", "REAL", "OID"])
        if k == "INT":
            return self.t_int()
        if k == "OCT":
            return self.t_oct()
        if k == "BIT":
            return self.t_bit()
        if k == "STR":
            return self.t_str()
        if k == "ENUM":
            return self.t_enum()
        if k == "REAL" and self.p.real:
            return self.t_real()
        if k == "OID":
            return T(r.choice(["OID", "ROID"])) if self.p.oid and r.random() < .5 else self.t_int()
        if k == "NULL":
            return T("NULL")
        return T("BOOL")

    def weight(self, t):
        """rough size of a value, to keep arrays bounded"""
        b, _ = base(t)
        k = b.kind
        if k in ("SEQ", "SET", "CHOICE"):
            return 1 + sum(self.weight(c.t) for c in b.children)
        if k in ("SEQOF", "SETOF"):
            return 1 + (size_range(t)[1] or 1) * self.weight(b.elem)
        if k in ("OCT", "BIT", "STR"):
            return 1 + (size_range(t)[1] or 1) // 16
        if k in ("OCTCONT", "BITCONT"):
            return 1 + self.weight(b.ref.t)
        return 1

    def narrow(self, t, d=3):
        """a constraint on values of t that an inner subtype may carry, or None"""
        r = self.r
        b, _ = base(t)
        k = b.kind
        if k == "INT":
            vs = self.int_values(t)
            lo, hi = min(vs), max(vs)
            c = self.int_rich(lo, hi) if r.random() < .5 else None
            return c or self.int_atom(lo, hi)
        if k == "ENUM":
            vs = [x[1] for x in b.items if valid(t, x[1])]
            c = ("val", r.choice(vs))
            return ("union", c, ("val", r.choice(vs))) if r.random() < .5 else c
        if k in ("OCT", "BIT", "STR") or k in ("SEQOF", "SETOF") and r.random() < .4:
            lo, hi = size_range(t)
            if hi > 60 or lo == hi:
                return None
            x, y = sorted((r.randint(lo or 0, hi), r.randint(lo or 0, hi)))
            if k == "STR" and r.random() < .5:
                return self.from_cons("".join(sorted(set(alphabet(t)) | set("ab")) if b.charset == "IA5String" else alphabet(t))) if len(alphabet(t)) > 12 else None
            return ("size", ("range", x, y, True, True) if x != y else ("val", x))
        if d <= 0:
            return None
        if k in ("SEQOF", "SETOF"):
            c = self.narrow(b.elem, d - 1)
            return c and ("wc", c, b.elem)
        if k in ("SEQ", "SET", "CHOICE") and b.children:
            out = []
            for c in b.children:
                if r.random() < .6:
                    con = self.narrow(c.t, d - 1) if r.random() < .8 else None
                    pres = None
                    if k == "CHOICE":
                        pres = "ABSENT" if r.random() < .25 else None
                    elif c.opt == "OPTIONAL":
                        pres = r.choice([None, None, "PRESENT", "ABSENT", "OPTIONAL"])
                    if con is None and pres is None:
                        continue
                    out.append((c.name, c.t, con if pres != "ABSENT" else None, pres))
            if k == "CHOICE" and out and all(x[3] == "ABSENT" for x in out) and len(out) == len(b.children):
                out = out[1:]
            return ("wcs", out) if out else None
        return None

    def ref(self):
        r = self.r
        a = r.choice(self.g.types)
        t = T("REF", ref=a)
        if self.weight(t) > 400:
            return self.prim()
        b, _ = base(t)
        if b.kind in ("SEQ", "SET", "CHOICE", "SEQOF", "SETOF") and r.random() < self.p.inner:
            c = self.narrow(t)
            if c is not None and c[0] in ("wc", "wcs"):
                t.cons = [c]
            return t
        if b.kind == "INT" and r.random() < .35:
            vs = self.int_values(t)
            lo, hi = min(vs), max(vs)
            if hi - lo > 3:
                a = lo + (hi - lo) // r.choice([3, 4, 5]); z = hi - (hi - lo) // r.choice([3, 4, 5])
                t.cons = [("range", r.choice([a, None]), z, True, True)]
                if not self.int_values(t) or int_range(t)[0] is not None and int_range(t)[1] is not None and int_range(t)[0] > int_range(t)[1]:
                    t.cons = []
        elif self.p.ada and (b.kind == "STR" or a.t.kind == "REF"):
            pass                                                  # recorded findings of the Ada back end (P14)
        elif (b.kind in ("OCT", "BIT", "STR") or b.kind in ("SEQOF", "SETOF") and
              # recorded finding: subtypes of arrays with anonymous enumerated/composite elements do not compile
              b.elem.kind in ("REF", "INT", "BOOL", "REAL", "OCT", "BIT", "STR", "NULL", "OID", "ROID") and
              not (b.elem.kind == "REF" and b.elem.cons and base(b.elem)[0].kind not in ("INT", "BOOL", "REAL", "STR"))) and r.random() < .3:
            lo, hi = size_range(t)
            ok = [n for n in range(lo or 0, min(hi, (lo or 0) + 60) + 1) if any_ok(t, n)]
            if len(ok) >= 2:
                x, y = sorted(r.sample(ok, 2))
                # recorded finding: fixed size subtypes of types of variable size do not set the count
                t.cons = [("size", r.choice([("range", x, y, True, True), ("val", y)] if b.kind == "STR" else [("range", x, y, True, True)]))]
                sz = size_range(t)
                if b.kind != "STR" and sz[0] == sz[1] and lo != hi:
                    t.cons = []
                try:
                    value_of(self, t)
                except RuntimeError:
                    t.cons = []
        return t

    def typ(self, d):
        r = self.r
        if self.g.types and r.random() < self.p.refs:
            return self.ref()
        x = r.random()
        if d <= 0 or x < .45:
            return self.prim()
        if x < .70:
            return self.t_seq(d)
        if x < .83:
            return self.t_choice(d)
        if x < .97 or not self.p.cont:
            return self.t_seqof(d)
        return self.t_cont()

    def t_cont(self):
        c = [a for a in self.g.types if self.weight(a.t) < 200 and base(a.t)[0].kind not in ("NULL",)]
        if not c:
            return self.prim()
        a = self.r.choice(c)
        mn, mx, _ = uper_size(a.t)
        if mn == 0 or mx > 100000:
            return self.prim()
        return T(self.r.choice(["OCTCONT", "BITCONT"]), ref=a)

    def t_seq(self, d):
        r = self.r
        t = T(r.choice(["SEQ", "SEQ", "SEQ", "SET"]))
        n = r.choice([0, 1, 2, 3, 3, 4, 5, 7]) if not self.p.ada else r.choice([1, 2, 3, 3, 4, 5, 7])
        t.children = []
        for _ in range(n):
            ch = Child(self.fresh("f"), self.typ(d - 1))
            x = r.random()
            if x < .22:
                ch.opt = "OPTIONAL"
            elif x < .34 and self.p.default:
                b, _ = base(ch.t)
                if b.kind in ("INT", "BOOL", "ENUM", "STR", "OCT", "BIT") and not (b.kind in ("OCT", "BIT", "STR") and size_range(ch.t)[1] > 60):
                    try:
                        v = value_of(self, ch.t)
                    except RuntimeError:
                        v = None
                    if v is not None and text_ok(b, v):
                        ch.opt, ch.default = "DEFAULT", v
            t.children.append(ch)
        return t

    def t_choice(self, d):
        r = self.r
        t = T("CHOICE")
        n = r.choice([1, 2, 2, 3, 3, 4, 5, 9])
        t.children = [Child(self.fresh("a"), self.typ(d - 1)) for _ in range(n)]
        return t

    def t_seqof(self, d):
        r = self.r
        t = T(r.choice(["SEQOF", "SEQOF", "SEQOF", "SETOF"]))
        t.elem = self.typ(d - 1)
        w = self.weight(t.elem)
        if w <= 1 and r.random() < self.p.big * 2 and base(t.elem)[0].kind in ("INT", "BOOL", "ENUM"):
            lo, hi = self.big_bounds()
        else:
            lo, hi = self.size_bounds(max(1, min(self.p.maxelems, 200 // w)))
        t.cons = [self.size_cons(lo, hi)]
        return t

    def build(self):
        r = self.r
        for i in range(r.randint(*self.p.ntypes)):
            for _ in range(30):
                d = r.choice([0, 0, 1, 1, 2, self.p.depth])
                save = self.n
                t = self.typ(d) if d else self.prim() if r.random() < .8 or not self.g.types else self.ref()
                if self.weight(t) > 3000:
                    continue
                try:
                    for _ in range(6):
                        value_of(self, t)
                except RuntimeError:
                    continue
                break
            else:
                t = T("BOOL")
            self.g.types.append(Assignment(self.fresh("T"), t))
        if self.p.values:
            for _ in range(r.randrange(0, 4)):
                a = r.choice(self.g.types)
                try:
                    v = value_of(self, T("REF", ref=a))
                except RuntimeError:
                    continue
                if full_text_ok(a.t, v) and self.weight(a.t) < 100:
                    self.g.values.append((self.fresh("v"), a, v))
        if r.random() < .3 and len(self.g.types) > 3:
            self.g.split = r.randrange(1, len(self.g.types))
        return self.g


def any_ok(t, n):
    b, cons = base(t)
    try:
        return all(size_holds(c, n) for c in cons)
    except ValueError:
        return False


# ------------------------------------------------------------------ values
def int_candidates(t, wordbits=64):
    b, cons = base(t)
    lo_min, lo_max, u_max = (I64MIN, I64MAX, U64MAX) if wordbits == 64 else (-(1 << 31), (1 << 31) - 1, (1 << 32) - 1)
    uns = is_unsigned(t)
    s = {0, 1, 127, 128, 255, 256, 65535, 65536, lo_max}
    if uns:
        s |= {u_max, u_max - 1, lo_max + 1}
    else:
        s |= {lo_min, lo_min + 1, -1, -128, -129, -32768, -32769}
    def walk(c):
        if c[0] == "val":
            s.update([c[1] - 1, c[1], c[1] + 1])
        elif c[0] == "range":
            for x in (c[1], c[2]):
                if x is not None:
                    s.update([x - 1, x, x + 1])
            if c[1] is not None and c[2] is not None:
                s.add((c[1] + c[2]) // 2)
        else:
            for y in c[1:]:
                if isinstance(y, tuple):
                    walk(y)
    for c in cons:
        walk(c)
    a, z = (0, u_max) if uns else (lo_min, lo_max)
    return sorted(x for x in s if a <= x <= z)


def rand_real(r, t):
    b, cons = base(t)
    rg = FULL
    for c in cons:
        rg = r_inter(rg, rng(c, 0))
    if cons:
        lo = rg[0] if rg[0] is not None else -1e300
        hi = rg[1] if rg[1] is not None else 1e300
        return r.choice([lo, hi, (lo + hi) / 2 if abs(hi) < 1e299 else 1.5, lo + (hi - lo) * r.random() if hi - lo < 1e299 else r.uniform(-1e5, 1e5)])
    return r.choice([0.0, 1.0, -1.0, 0.1, r.uniform(-1e3, 1e3), r.uniform(-1, 1) * 10.0 ** r.randrange(-300, 300), 5e-324, 1.7976931348623157e308, float(r.randrange(-1 << 40, 1 << 40)), -0.0])


def value_of(g, t, big=True):
    """A random valid value (RuntimeError when none was found)."""
    r = g.r
    b, cons = base(t)
    k = b.kind
    for _ in range(40):
        v = _value(g, t, b)
        if k in ("OCTCONT", "BITCONT", "NULL", "OID", "ROID"):
            return v
        if k in ("SEQ", "SET", "CHOICE"):
            if all(holds(c, v) for c in cons):
                return v
            continue
        if k == "REAL":
            if all(holds(c, b2f(v)) for c in cons):
                return v
        elif k in ("SEQOF", "SETOF"):
            if all(holds(c, v) for c in cons):
                return v
        elif valid(t, v):
            return v
    raise RuntimeError("no value")


def pick_len(r, t):
    lo, hi = size_range(t)
    lo = lo or 0
    if hi > 2000:
        # the interesting lengths are costly; take them, but not always
        return r.choice([lo, min(hi, lo + 1), min(hi, 130), hi, r.choice([x for x in (127, 128, 16383, 16384, 32768, 49152, 65535, 65536, 65537, hi - 1) if lo <= x <= hi] or [hi])])
    return r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, hi), min(hi, lo + 1)])


def single_vals(cons):
    out = []
    def walk(c):
        if c[0] == "val":
            out.append(c[1])
        elif c[0] in ("union", "inter", "except"):
            walk(c[1]); walk(c[2])
    for c in cons:
        walk(c)
    return out


def _value(g, t, b):
    r = g.r
    k = b.kind
    if k == "INT":
        c = [v for v in int_candidates(t, g.p.wordbits) if valid(t, v)]
        lo, hi = int_range(t)
        if not c or r.random() < .4:
            wl = (0, U64MAX) if is_unsigned(t) else (I64MIN, I64MAX)
            if g.p.wordbits == 32:
                wl = (0, (1 << 32) - 1) if is_unsigned(t) else (-(1 << 31), (1 << 31) - 1)
            a = lo if lo is not None else wl[0]
            z = hi if hi is not None else wl[1]
            if z < a:
                raise RuntimeError("empty")
            v = r.randint(a, z)
            if lo is None or hi is None:
                v = max(a, min(z, v >> r.randrange(0, 64)))
            return v
        return r.choice(c)
    if k == "BOOL":
        return r.random() < .5
    if k == "NULL":
        return None
    if k == "REAL":
        return f2b(rand_real(r, t))
    if k == "ENUM":
        return r.choice([x[1] for x in b.items])
    if k in ("OCT", "BIT", "STR"):
        sv = [x for x in single_vals(base(t)[1]) if not isinstance(x, int)]
        if sv and r.random() < .9:
            return r.choice(sv)
        n = pick_len(r, t)
        if k == "OCT":
            return bytes(r.choice([0, 255, r.randrange(256)]) for _ in range(n)) if n < 300 else r.randbytes(n)
        if k == "BIT":
            return "".join(r.choice("01") for _ in range(n)) if n < 300 else bin((1 << n) | r.getrandbits(n))[3:]
        a = [c for c in alphabet(t) if c != "\0"]
        if not a:
            raise RuntimeError("no characters")
        return "".join(r.choice(a) for _ in range(n)) if n < 300 else (("".join(r.choice(a) for _ in range(97))) * (n // 97 + 1))[:n]
    if k in ("SEQ", "SET"):
        v = {}
        mode = r.random()
        for c in b.children:
            if c.acn is not None:
                continue
            if c.opt and (mode < .12 or (mode < .8 and r.random() < .5)):
                continue
            v[c.name] = value_of(g, c.t)
        return v
    if k == "CHOICE":
        c = r.choice(b.children)
        return (c.name, value_of(g, c.t))
    if k in ("SEQOF", "SETOF"):
        n = pick_len(r, t)
        if n > 50:
            few = [value_of(g, b.elem) for _ in range(7)]
            return [few[(i * 3 + i // 7) % 7] for i in range(n)]
        return [value_of(g, b.elem) for _ in range(n)]
    if k in ("OCTCONT", "BITCONT"):
        return value_of(g, T("REF", ref=b.ref))
    if k == "OID":
        a = r.choice([0, 1, 2])
        return tuple([a, r.randrange(40)] + [r.choice([r.randrange(128), r.randrange(1 << 14), r.getrandbits(r.choice([31, 32, 63, 64] if g.p.wordbits == 64 else [16, 31, 32]))]) for _ in range(r.randrange(0, 7))])
    if k == "ROID":
        return tuple(r.choice([r.randrange(128), r.randrange(1 << 14), r.getrandbits(r.choice([31, 32, 63, 64] if g.p.wordbits == 64 else [16, 31, 32]))]) for _ in range(r.randrange(1, 7)))
    raise ValueError(k)


def largest(g, t, tries=6):
    """A valid value with a long encoding: present optionals, longest alternatives, maximal sizes."""
    b, cons = base(t)
    k = b.kind
    if k in ("SEQ", "SET"):
        return {c.name: largest(g, c.t) for c in b.children if c.acn is None}
    if k == "CHOICE":
        c = max(b.children, key=lambda c: uper_size(c.t)[1])
        return (c.name, largest(g, c.t))
    if k in ("SEQOF", "SETOF"):
        hi = size_range(t)[1]
        if any_ok(t, hi):
            e = largest(g, b.elem)
            return [e] * hi
        return value_of(g, t)
    if k in ("OCTCONT", "BITCONT"):
        return largest(g, T("REF", ref=b.ref))
    if k in ("OCT", "BIT", "STR"):
        hi = size_range(t)[1]
        for _ in range(tries):
            v = {"OCT": lambda: g.r.randbytes(hi), "BIT": lambda: "".join(g.r.choice("01") for _ in range(hi)),
                 "STR": lambda: "".join(g.r.choice([c for c in alphabet(t) if c != "\0"]) for _ in range(hi))}[k]()
            if valid(t, v):
                return v
        return value_of(g, t)
    if k == "INT":
        c = [v for v in int_candidates(t, g.p.wordbits) if valid(t, v)]
        return max(c, key=lambda v: len(uper(t, v))) if c else value_of(g, t)
    if k == "OID":
        m = (1 << g.p.wordbits) - 1
        return tuple([2, 39] + [m] * 18)
    if k == "ROID":
        return tuple([(1 << g.p.wordbits) - 1] * 20)
    if k == "REAL":
        return f2b(value_of_real_long(g, t))
    return value_of(g, t)


def value_of_real_long(g, t):
    b, cons = base(t)
    for _ in range(30):
        x = rand_real(g.r, t)
        if all(holds(c, x) for c in cons):
            return x
    raise RuntimeError("no real")


# ------------------------------------------------------------------ ASN.1 text
def cons_text(c, kind, t):
    k = c[0]
    if k == "val":
        return val_text(t, c[1])
    if k == "range":
        f = lambda x, d: d if x is None else num_text(x)
        return f(c[1], "MIN") + ("" if c[3] else "<") + ".." + ("" if c[4] else "<") + f(c[2], "MAX")
    if k == "union":
        return "%s | %s" % (paren(c[1], kind, t, "union"), paren(c[2], kind, t, "union"))
    if k == "inter":
        return "%s ^ %s" % (paren(c[1], kind, t, "inter"), paren(c[2], kind, t, "inter"))
    if k == "except":
        return "%s EXCEPT %s" % (paren(c[1], kind, t, "except"), paren(c[2], kind, t, "except"))
    if k == "allexcept":
        return "ALL EXCEPT (%s)" % cons_text(c[1], kind, t)
    if k == "wc":
        return "WITH COMPONENT (%s)" % cons_text(c[1], base(c[2])[0].kind, c[2])
    if k == "wcs":
        return "WITH COMPONENTS {..., %s}" % ", ".join(n + (" (%s)" % cons_text(con, base(ty)[0].kind, ty) if con is not None else "") + (" " + pres if pres else "") for n, ty, con, pres in c[1])
    if k == "size":
        return "SIZE(%s)" % cons_text(c[1], "INT", T("INT"))
    if k == "from":
        return "FROM(%s)" % cons_text(c[1], "CHARS", None)
    if k == "chars":
        return '"%s"' % c[1]
    if k == "crange":
        f = lambda x, d: d if x is None else '"%s"' % x
        return f(c[1], "MIN") + ("" if c[3] else "<") + ".." + ("" if c[4] else "<") + f(c[2], "MAX")
    raise ValueError(k)


def paren(c, kind, t, ctx):
    s = cons_text(c, kind, t)
    if c[0] in ("union", "inter", "except", "allexcept") and not (ctx == "union" and c[0] == "union"):
        return "(%s)" % s
    return s


def num_text(x):
    if isinstance(x, float):
        return real_text(x)
    return str(x)


def real_text(x):
    s = repr(x)
    if "e" in s:
        m, e = s.split("e")
        if "." not in m:
            m += ".0"
        return "%sE%d" % (m, int(e))
    return s


def text_ok(b, v):
    if b.kind == "STR":
        return all(32 <= ord(c) < 127 and c != '"' for c in v) and len(v) > 0
    return True


def full_text_ok(t, v):
    b, _ = base(t)
    if b.kind == "STR":
        return text_ok(b, v)
    if b.kind in ("SEQ", "SET"):
        return all(full_text_ok(c.t, v[c.name]) for c in b.children if c.name in v)
    if b.kind == "CHOICE":
        c = [c for c in b.children if c.name == v[0]][0]
        return full_text_ok(c.t, v[1])
    if b.kind in ("SEQOF", "SETOF"):
        return len(v) < 20 and all(full_text_ok(b.elem, x) for x in v)
    if b.kind in ("OCT", "BIT"):
        return len(v) < 300
    if b.kind == "REAL":
        return abs(b2f(v)) < 1e15 and (v == 0 or 1e-15 < abs(b2f(v)))
    if b.kind in ("OID", "ROID", "OCTCONT", "BITCONT"):
        return False
    return True


def val_text(t, v):
    b, _ = base(t)
    k = b.kind
    if k == "INT":
        return str(v)
    if k == "BOOL":
        return "TRUE" if v else "FALSE"
    if k == "NULL":
        return "NULL"
    if k == "REAL":
        return real_text(b2f(v))
    if k == "ENUM":
        return [x[0] for x in b.items if x[1] == v][0]
    if k == "OCT":
        return "'%s'H" % v.hex().upper()
    if k == "BIT":
        return "'%s'B" % v
    if k == "STR":
        return '"%s"' % v
    if k in ("SEQ", "SET"):
        return "{%s}" % ", ".join("%s %s" % (c.name, val_text(c.t, v[c.name])) for c in b.children if c.name in v)
    if k == "CHOICE":
        c = [c for c in b.children if c.name == v[0]][0]
        return "%s: %s" % (c.name, val_text(c.t, v[1]))
    if k in ("SEQOF", "SETOF"):
        return "{%s}" % ", ".join(val_text(b.elem, x) for x in v)
    raise ValueError(k)


STRKW = {"OCT": "OCTET STRING", "BIT": "BIT STRING", "BOOL": "BOOLEAN", "INT": "INTEGER", "NULL": "NULL", "REAL": "REAL", "OID": "OBJECT IDENTIFIER", "ROID": "RELATIVE-OID"}


def type_text(t, ind="  "):
    k = t.kind
    cs = "".join(" (%s)" % cons_text(c, k, t) for c in t.cons)
    if k == "STR":
        return t.charset + cs
    if k == "ENUM":
        return "ENUMERATED { %s }%s" % (", ".join("%s(%d)" % (n, v) if e else n for n, v, e in t.items), cs)
    if k == "REF":
        return t.ref.name + cs + getattr(t, "suffix", "")
    if k == "BIT" and t.named:
        return "BIT STRING { %s }%s" % (", ".join("%s(%d)" % x for x in t.named), cs)
    if k in STRKW:
        return STRKW[k] + cs
    if k in ("SEQ", "SET", "CHOICE"):
        kw = {"SEQ": "SEQUENCE", "SET": "SET", "CHOICE": "CHOICE"}[k]
        rows = []
        for c in t.children:
            if c.acn is not None:
                continue
            s = "%s  %s %s" % (ind, c.name, type_text(c.t, ind + "  "))
            if c.opt == "OPTIONAL":
                s += " OPTIONAL"
            elif c.opt == "DEFAULT":
                s += " DEFAULT " + val_text(c.t, c.default)
            rows.append(s)
        return "%s {\n%s\n%s}" % (kw, ",\n".join(rows), ind) if rows else kw + " { }"
    if k in ("SEQOF", "SETOF"):
        kw = "SEQUENCE" if k == "SEQOF" else "SET"
        return "%s (%s) OF %s" % (kw, cons_text(t.cons[0], k, t), type_text(t.elem, ind + "  "))
    if k == "OCTCONT":
        return "OCTET STRING (CONTAINING %s)" % t.ref.name
    if k == "BITCONT":
        return "BIT STRING (CONTAINING %s)" % t.ref.name
    raise ValueError(k)


def asn1_text(g, comments=None):
    """-> {file name: text}"""
    def body(types, values):
        out = []
        for a in types:
            out.append("%s ::= %s\n" % (a.name, type_text(a.t, "")))
        for n, a, v in values:
            out.append("%s %s ::= %s\n" % (n, a.name, val_text(a.t, v)))
        return "\n".join(out)
    head = "%s DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n"
    if g.split is None:
        return {"a.asn1": head % g.modname + "\n" + body(g.types, g.values) + "\nEND\n"}
    first, second = g.types[:g.split], g.types[g.split:]
    used = set()
    def walk(t):
        if t.kind in ("REF", "OCTCONT", "BITCONT"):
            used.add(t.ref.name)
        for c in t.children or []:
            walk(c.t)
        if t.elem:
            walk(t.elem)
    for a in second:
        walk(a.t)
        for d in a.params or []:
            walk(d.t)
    for n, a, v in g.values:
        used.add(a.name)
    imp = [a.name for a in first if a.name in used]
    m2 = g.modname + "2"
    t2 = head % m2 + ("\nIMPORTS %s FROM %s;\n\n" % (", ".join(imp), g.modname) if imp else "\n") + body(second, g.values) + "\nEND\n"
    return {"a.asn1": head % g.modname + "\n" + body(first, []) + "\nEND\n", "b.asn1": t2}
