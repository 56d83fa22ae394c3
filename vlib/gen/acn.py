"""ACN decoration of random grammars and the reference ACN encoding, written from the ACN manual (Docs/ACN_V4.txt)."""
import struct
from .model import *
from . import rand

UNSET = object()


class Refuse(Exception):
    """no consistent value for a determinant: encoding must fail"""


class Undetermined(Exception):
    """a determinant that no present component determines"""


class Skip(Exception):
    """value outside what the encoding can carry (ambiguous termination, f32 overflow, ...)"""


class Det:
    """A determinant (ACN-only child or parameter) and what determines it."""
    def __init__(self, name, kind, t):
        self.name, self.kind, self.t = name, kind, t     # kind: size bool enum int str
        self.consumers = []                              # owner value -> value or None
        self.null = False

    def value(self, sv):
        vs = []
        for f in self.consumers:
            x = f(sv)
            if x is not None:
                vs.append(x)
        if not vs:
            raise Undetermined(self.name)
        if any(x != vs[0] for x in vs):
            raise Refuse(self.name)
        return vs[0]


def props(t):
    """effective ACN properties: an occurrence overrides what it refers to"""
    chain = [t]
    while t.kind == "REF":
        if any(c[0] in ("wc", "wcs") for c in t.cons) or hasattr(t, "suffix"):
            break          # inner subtyping: the specification is not inherited
        t = t.ref.t
        chain.append(t)
    p = {}
    for x in reversed(chain):
        p.update(x.acn)
    return p


def pad_to(w, align):
    if align:
        w.put("0" * (-w.pos % align))


# ------------------------------------------------------------------ leaves
def root_range(t):
    """range of the type a chain of references starts from: its sign decides whether an ASCII form has a sign character"""
    while t.kind == "REF":
        t = t.ref.t
    return int_range(t)


def int_bits(v, p, lo, hi, root=None):
    enc = p.get("enc")
    if enc is None:
        return enc_int(v, lo, hi)
    if p.get("map") == "milbus":
        v = 0 if v == 32 else v
    n = p["size"]
    if enc == "pos-int" or enc == "twos-complement":
        if enc == "pos-int" and not 0 <= v < 1 << n or enc != "pos-int" and not -(1 << (n - 1)) <= v < 1 << (n - 1):
            raise Skip
        s = ub(v & ((1 << n) - 1), n)
        if p.get("endian") == "little" and n in (16, 32, 64):
            s = "".join(s[i:i + 8] for i in range(n - 8, -1, -8))
        return s
    digits = str(abs(v))
    rlo = root[0] if root else lo
    signed = not (rlo is not None and rlo >= 0)
    if enc == "BCD":
        if n == "null":
            return "".join(ub(int(d), 4) for d in digits if v) + "1111"      # PROFILE: zero has no digits
        if len(digits) * 4 > n:
            raise Skip
        return "".join(ub(int(d), 4) for d in digits.zfill(n // 4))
    if n == "null":
        s = ("+-"[v < 0] if signed else "") + digits
        return bytes_bits(s.encode()) + p.get("term", "0" * 8)
    s = ("+-"[v < 0] if signed else "") + digits.zfill(n // 8 - (1 if signed else 0))
    if len(s) * 8 > n:
        raise Skip
    return bytes_bits(s.encode())


def f32(b):
    """nearest binary32 of a binary64 pattern, as bits of both widths"""
    x = b2f(b)
    try:
        s = struct.pack(">f", x)
    except OverflowError:
        raise Skip
    if x != x:
        s = b"\x7f\xc0\0\0"
    return s, struct.unpack(">f", s)[0]


def enum_value(b, p, v):
    """number written for the item with ASN.1 value v"""
    if p.get("encval"):
        name = [x[0] for x in b.items if x[1] == v][0]
        return p.get("items", {}).get(name, v)
    return sorted(x[1] for x in b.items).index(v)      # as uPER (ACN_V4.txt, X.691 14.1): position in ascending order


def enum_range(b, p):
    if p.get("encval"):
        vs = [enum_value(b, p, x[1]) for x in b.items]
        return min(vs), max(vs)
    return 0, len(b.items) - 1


def char_bits(t, p):
    if p.get("enc") == "ASCII":
        return (lambda ch: ub(ord(ch), 8)), 8
    a = alphabet(t)
    n = nbits(len(a) - 1)
    if isinstance(p.get("size"), tuple):      # PROFILE: with a size determinant, characters are always coded by their index
        return (lambda ch: ub(a.index(ch), n)), n
    return str_coder(t), n


def put_det(w, d, val):
    """write a determinant"""
    t, p = d.t, props(d.t)
    b, _ = base(t)
    pad_to(w, p.get("align"))
    if b.kind == "INT":
        lo, hi = int_range(t)
        if p.get("enc"):
            lo = 0 if p["enc"] in ("pos-int", "BCD") else None if lo is None else lo
        elif lo is not None and not lo <= val <= hi:
            raise Skip
        w.put(int_bits(val, p, lo, hi))
    elif b.kind == "BOOL":
        w.put("1" if val else "0")
    elif b.kind == "ENUM":
        v = [x[1] for x in b.items if x[0] == val][0]
        w.put(int_bits(enum_value(b, p, v), p, *enum_range(b, p)))
    elif b.kind == "STR":
        put_acn(w, t, val, {})
    elif b.kind == "NULL":
        w.put(p.get("pattern", ""))
    else:
        raise ValueError(b.kind)


def put_many(w, t, p, n, lo, hi, emit):
    """emit(i) writes element i"""
    size = p.get("size")
    if isinstance(size, tuple) and size[0] == "term":
        k, start, at = len(w.parts), w.pos, []
        for i in range(n):
            at.append(w.pos - start)
            emit(i)
        whole = "".join(w.parts[k:]) + size[1]
        if any(whole.startswith(size[1], x) for x in at):
            raise Skip
        w.put(size[1])
        return
    if not (isinstance(size, tuple) and size[0] == "ext") and lo != hi:
        w.put(ub(n - lo, nbits(hi - lo)))
    for i in range(n):
        emit(i)


# ------------------------------------------------------------------ whole values
def put_acn(w, t, v, env):
    b, cons = base(t)
    p = props(t)
    k = b.kind
    if k not in ("OCTCONT", "BITCONT"):
        pad_to(w, p.get("align"))
    if k == "INT":
        w.put(int_bits(v, p, *int_range(t), root_range(t)))
    elif k == "BOOL":
        tv, fv = p.get("true"), p.get("false")
        if tv is None and fv is None:
            tv, fv = "1", "0"
        elif tv is None:
            tv = flip(fv)
        elif fv is None:
            fv = flip(tv)
        w.put(tv if v else fv)
    elif k == "NULL":
        w.put(p.get("pattern", ""))
    elif k == "REAL":
        if p.get("enc"):
            s = f32(v)[0] if p["enc"] == "IEEE754-1985-32" else struct.pack(">Q", v)
            w.put(bytes_bits(s[::-1] if p.get("endian") == "little" else s))
        else:
            w.real(v)
    elif k == "ENUM":
        w.put(int_bits(enum_value(b, p, v), p, *enum_range(b, p)))
    elif k in ("OCT", "BIT"):
        lo, hi = size_range(t)
        put_many(w, t, p, len(v), lo, hi, (lambda i: w.put(ub(v[i], 8))) if k == "OCT" else (lambda i: w.put(v[i])))
    elif k == "STR":
        lo, hi = size_range(t)
        enc, n = char_bits(t, p)
        if p.get("size") and p["size"][0] == "term":
            body, pat = "".join(map(enc, v)), p["size"][1]
            if any((body + pat)[i:i + len(pat)] == pat for i in range(0, len(body), 8)):
                raise Skip
            w.put(body + pat)
        else:
            put_many(w, t, p, len(v), lo, hi, lambda i: w.put(enc(v[i])))
    elif k in ("SEQ", "SET"):
        for c, d in getattr(b, "dets", ()):
            env[id(c)] = d.value(v) if d.consumers else None
        w.put("".join("1" if c.name in v else "0" for c in b.children if c.acn is None and c.opt and not getattr(c, "when", None)))
        for c in b.children:
            if c.acn is not None:
                put_det(w, c.acn, env[id(c)])
                continue
            wh = getattr(c, "when", None)
            if c.opt and wh and wh[0] == "expr" and bool(wh[2](v)) != (c.name in v):
                raise Refuse(c.name)
            if c.name in v:
                put_acn(w, c.t, v[c.name], env)
    elif k == "CHOICE":
        names = [c.name for c in b.children]
        i = names.index(v[0])
        if not p.get("det") and not any(getattr(c, "when", None) for c in b.children):
            w.put(ub(i, nbits(len(names) - 1)))
        put_acn(w, b.children[i].t, v[1], env)
    elif k in ("SEQOF", "SETOF"):
        lo, hi = size_range(t)
        put_many(w, t, p, len(v), lo, hi, lambda i: put_acn(w, b.elem, v[i], env))
    elif k in ("OID", "ROID"):
        c = oid_contents(v, k == "ROID")
        put_items(w, len(c), None, None, lambda i, j: w.put(bytes_bits(c[i:j])))
    elif k in ("OCTCONT", "BITCONT"):
        pad_to(w, p.get("align"))
        s, lo, hi, u = cont_bits(t, v, w)
        put_many(w, t, p, len(s) // u, lo, hi, lambda i: w.put(s[i * u:i * u + u]))
    else:
        raise ValueError(k)


def cont_bits(t, v, w=None):
    """contents of a CONTAINING type -> (bits, smallest count, largest count, unit)"""
    b, _ = base(t)
    u = 8 if b.kind == "OCTCONT" else 1
    mn, mx, _ = acn_size(b.ref.t)
    lo, hi = (mn + u - 1) // u, (mx + u - 1) // u
    act = None
    if w is not None and w.actual is not None:
        p = props(t)
        act = w.actual[w.pos + (0 if lo == hi or p.get("size") else nbits(hi - lo)):]
    sub = W(act)
    put_acn(sub, T("REF", ref=b.ref), v, {})
    s = sub.bits()
    return s + "0" * (-len(s) % u), lo, hi, u


def flip(s):
    return "".join("10"[int(c)] for c in s)


def acn(t, v, actual=None):
    w = W(actual)
    put_acn(w, t, v, {})
    return w.bits()


# ------------------------------------------------------------------ sizes
AL = {None: 0, 8: 7, 16: 15, 32: 31}


def acn_size(t):
    """(min bits, max bits, tight) as the layout rules imply; an alignment may cost up to its width less one"""
    b, _ = base(t)
    p = props(t)
    mn, mx, tg = _size(t, b, p)
    a = AL[p.get("align")]
    return mn, mx + a, tg and not a


def det_size(d):
    p = props(d.t)
    b, _ = base(d.t)
    a = AL[p.get("align")]
    if b.kind == "STR":
        return acn_size(d.t)
    if b.kind == "NULL":
        n = len(p.get("pattern", ""))
        return n, n + a, not a
    if b.kind == "BOOL":
        return 1, 1 + a, not a
    lo, hi = enum_range(b, p) if b.kind == "ENUM" else int_range(d.t)
    if p.get("enc"):
        lo = 0 if p["enc"] in ("pos-int", "BCD") else lo
    mn, mx, tg = int_size(p, lo, hi)
    return mn, mx + a, False


def int_size(p, lo, hi, root=None):
    n = p.get("size")
    if p.get("enc") is None:
        if lo is not None and hi is not None:
            n = nbits(hi - lo)
            return n, n, True
        return 8, 72, False
    if n == "null":
        if root is not None:
            lo = root[0]
        signed = not (lo is not None and lo >= 0)
        digits = 19 if signed else 20          # of the largest machine integer
        if p["enc"] == "BCD":
            return 4, 4 + 4 * digits, False
        z = len(p.get("term", "0" * 8))
        return z, z + 8 * digits + (16 if signed else 0), False
    return n, n, True


def inmost(t):
    """the type behind references and CONTAINING"""
    b, _ = base(t)
    while b.kind in ("OCTCONT", "BITCONT"):
        b, _ = base(T("REF", ref=b.ref))
    return b


def loose_real(t, seen=()):
    """does the type hold a REAL in its PER form, whose mantissa may be written in several lengths?"""
    b, _ = base(t)
    k = b.kind
    if k == "REAL":
        return not props(t).get("enc")
    if k in ("SEQ", "SET", "CHOICE"):
        return any(c.acn is None and loose_real(c.t) for c in b.children)
    if k in ("SEQOF", "SETOF"):
        return loose_real(b.elem)
    if k in ("OCTCONT", "BITCONT"):
        return loose_real(T("REF", ref=b.ref))
    return False


def _size(t, b, p):
    k = b.kind
    if k == "INT":
        return int_size(p, *int_range(t), root=root_range(t))
    if k == "BOOL":
        n = len(p.get("true") or p.get("false") or "1")
        return n, n, True
    if k == "NULL":
        n = len(p.get("pattern", ""))
        return n, n, True
    if k == "REAL":
        if p.get("enc"):
            n = 32 if p["enc"].endswith("32") else 64
            return n, n, True
        return 8, 104, False
    if k == "ENUM":
        return int_size(p, *enum_range(b, p))
    if k in ("OCT", "BIT", "STR", "SEQOF", "SETOF"):
        lo, hi = size_range(t)
        if k == "OCT":
            a, z, tg = 8, 8, True
        elif k == "BIT":
            a, z, tg = 1, 1, True
        elif k == "STR":
            a = z = char_bits(t, p)[1]; tg = True
        else:
            a, z, tg = acn_size(b.elem)
        sz = p.get("size")
        ln = 0
        if isinstance(sz, tuple):
            ln = len(sz[1]) if sz[0] == "term" else 0
        elif lo != hi:
            ln = nbits(hi - lo)
        return lo * a + ln, hi * z + ln, tg and any_len_ok(t, hi) and not (isinstance(sz, tuple))
    if k in ("SEQ", "SET"):
        mn = mx = 0
        tight = True
        for c in b.children:
            if c.acn is not None:
                a, z, tg = det_size(c.acn)
                mn += a; mx += z; tight = tight and tg
                continue
            a, z, tg = acn_size(c.t)
            tight = tight and tg
            bit = 1 if c.opt and not getattr(c, "when", None) else 0
            mn += bit + (0 if c.opt else a)
            mx += z + bit
        return mn, mx, tight
    if k == "CHOICE":
        n = 0 if p.get("det") or any(getattr(c, "when", None) for c in b.children) else nbits(len(b.children) - 1)
        s = [acn_size(c.t) for c in b.children]
        mx = max(x[1] for x in s)
        return n + min(x[0] for x in s), n + mx, any(x[1] == mx and x[2] for x in s)
    if k in ("OCTCONT", "BITCONT"):
        u = 8 if k == "OCTCONT" else 1
        mn, mx, tg = acn_size(b.ref.t)
        lo, hi = (mn + u - 1) // u, (mx + u - 1) // u
        ln = 0 if lo == hi or p.get("size") else nbits(hi - lo)
        return lo * u + ln, hi * u + ln, tg
    if k in ("OID", "ROID"):
        return uper_size(t)
    raise ValueError(k)


# ------------------------------------------------------------------ values the encoding can carry
def fix(gen, t, v, keep=False):
    """v changed so that it can be encoded: determinants agree, presence follows its expression (keep: leave those as they are)"""
    b, _ = base(t)
    p = props(t)
    k = b.kind
    if k == "REAL" and p.get("enc") == "IEEE754-1985-32":
        v = f2b(f32(v)[1])
    elif k in ("SEQ", "SET"):
        v = {n: fix(gen, c.t, v[n], keep) for c in b.children if c.acn is None for n in [c.name] if n in v}
        if not keep:
            for c in b.children:
                wh = getattr(c, "when", None)
                if c.acn is None and c.opt and wh and wh[0] == "expr":
                    need = bool(wh[2](v))
                    if need and c.name not in v:
                        v[c.name] = fix(gen, c.t, rand.value_of(gen, c.t))
                    elif not need and c.name in v:
                        del v[c.name]
            for f in getattr(b, "fixups", ()):
                f(v)
    elif k == "CHOICE":
        c = [c for c in b.children if c.name == v[0]][0]
        v = (v[0], fix(gen, c.t, v[1], keep))
    elif k in ("SEQOF", "SETOF"):
        v = [fix(gen, b.elem, x, keep) for x in v] if len(v) < 300 else v
    elif k in ("OCTCONT", "BITCONT"):
        v = fix(gen, T("REF", ref=b.ref), v, keep)
    return v


# ------------------------------------------------------------------ decoration
class Decor:
    def __init__(self, gen, p_int=.55, p_det=.5, aligns=.12, params=.5, cont_ext=True):
        self.gen, self.r, self.g = gen, gen.r, gen.g
        self.p_int, self.p_det, self.p_align, self.p_params = p_int, p_det, aligns, params
        self.cont_ext = cont_ext
        self.n = 0
        self.newenums = []
        self.feats = set()

    def name(self, pre):
        self.n += 1
        return "%s%s%d" % (pre, self.r.choice(["", "-", "Q"]), self.n)

    # ---------------- leaf properties
    def int_props(self, lo, hi, wide=True):
        r = self.r
        u = lo is not None and lo >= 0
        if u:
            m = 64 if hi is None else max(1, nbits(hi))
            k = r.choice(["pos-int"] * 5 + ["ASCII", "BCD", "BCDnull", "ASCIInull"] + (["milbus"] if (lo, hi) == (1, 32) else []))
        else:
            m = 64 if hi is None or lo is None else max(octbits(lo), octbits(hi))
            k = r.choice(["twos-complement"] * 5 + ["ASCII", "ASCIInull"])
        digits = max(len(str(abs(lo))) if lo is not None else 19, len(str(abs(hi))) if hi is not None else (20 if u else 19))
        if k in ("pos-int", "twos-complement", "milbus"):
            std = [x for x in (8, 16, 32, 64) if x >= m]
            n = r.choice(std) if r.random() < .65 else r.randrange(m, min(64, m + 12) + 1)
            p = {"enc": "pos-int" if k == "milbus" else k, "size": n}
            if n in (16, 32, 64) and r.random() < .5:
                p["endian"] = r.choice(["little", "little", "big"])
            if k == "milbus":
                p["map"] = "milbus"
            return p
        if k == "ASCII":
            d = digits + 1            # (the compiler wants room for the sign of unsigned numbers too)
            return {"enc": "ASCII", "size": 8 * r.randrange(d, min(d + 3, 20) + 1) if d < 20 else 8 * d}
        if k == "BCD":
            return {"enc": "BCD", "size": 4 * (r.randrange(digits, min(digits + 3, 20) + 1))}
        if k == "BCDnull":
            return {"enc": "BCD", "size": "null"}
        p = {"enc": "ASCII", "size": "null"}
        if r.random() < .5:
            p["term"] = r.choice(["00001101", "0000110100001010", "11111111", "000000000000000000000000"])
        return p

    def align(self, t):
        if base(t)[0].kind in ("OID", "ROID") or id(t) in self.contained:      # (unspecified: does the alignment also move the containing string?)
            return
        if self.r.random() < self.p_align:
            t.acn["align"] = self.r.choice([8, 8, 16, 32])

    def leaf(self, t):
        r = self.r
        b, _ = base(t)
        k = b.kind
        isref = t.kind == "REF"
        inh = props(t) if isref else {}
        if any(x in inh for x in ("term", "map")) or isinstance(inh.get("size"), tuple) or inh.get("encval") or inh.get("size") == "null":
            return
        if isref:
            if hasattr(t, "suffix") or any(c[0] in ("wc", "wcs") for c in t.cons):
                return
            if k == "INT":
                rlo, lo = root_range(t)[0], int_range(t)[0]
                if (rlo is not None and rlo >= 0) != (lo is not None and lo >= 0):
                    return      # the encoding follows the sign of the referenced type
            if r.random() > .2 or k not in ("INT", "REAL"):
                return
        if k == "INT":
            lo, hi = int_range(t)
            if r.random() < self.p_int or inh.get("enc"):
                t.acn = self.must_int(lo, hi, inh)
                self.feats.add(("int", t.acn["enc"], t.acn.get("endian"), t.acn["size"] if t.acn["size"] in (8, 16, 32, 64, "null") else "odd"))
        elif k == "ENUM":
            if r.random() < self.p_int:
                if r.random() < .5:
                    t.acn["encval"] = True
                    if r.random() < .4:
                        vs = r.sample(range(0, r.choice([20, 300, 70000])), len(b.items))
                        t.acn["items"] = {x[0]: v for x, v in zip(b.items, vs)}
                lo, hi = enum_range(b, t.acn)
                if not t.acn.get("encval") or r.random() < .75:
                    t.acn.update(self.int_props(lo, hi))
                self.feats.add(("enum", t.acn.get("enc"), bool(t.acn.get("encval")), bool(t.acn.get("items"))))
        elif k == "REAL":
            if r.random() < .6 or inh.get("enc"):
                t.acn["enc"] = r.choice(["IEEE754-1985-32", "IEEE754-1985-64", "IEEE754-1985-64"])
                if r.random() < .5 or inh.get("endian"):
                    t.acn["endian"] = r.choice(["little", "big"])
                self.feats.add(("real", t.acn["enc"], t.acn.get("endian")))
        elif k == "BOOL":
            if r.random() < .4:
                n = r.choice([1, 2, 5, 8, 8, 13, 16])
                s = "".join(r.choice("01") for _ in range(n))
                x = r.random()
                if x < .4:
                    t.acn["true"] = s
                elif x < .7:
                    t.acn["false"] = s
                else:
                    t.acn["true"] = s
                    t.acn["false"] = flip(s)
                self.feats.add(("bool", n % 8 == 0, "true" in t.acn, "false" in t.acn))
        elif k == "NULL":
            if r.random() < .5:
                t.acn["pattern"] = "".join(r.choice("01") for _ in range(r.choice([1, 3, 8, 11, 16, 24])))
                self.feats.add(("null", len(t.acn["pattern"]) % 8 == 0))
        elif k == "STR":
            if r.random() < .5:
                t.acn["enc"] = "ASCII"
                if r.random() < .5 and not any("None" in repr(c) for c in base(t)[1] + b.cons):      # MIN and MAX of a FROM are taken without the parent's alphabet
                    pats = ["00000000"]
                    if any(c[0] == "from" for c in b.cons):      # the compiler wants the pattern's characters excluded by an alphabet constraint
                        al = alphabet(t)
                        pats += [x for x in ("00001101", "0000110100001010", "11111111", "01111110") if not any(chr(int(x[i:i + 8], 2)) in al for i in range(0, len(x), 8))]
                    t.acn["size"] = ("term", r.choice(pats))
                self.feats.add(("str", t.acn.get("size", ("",))[0]))
        elif k in ("OCT", "BIT"):
            if r.random() < .1 and len(set(size_range(t))) > 1:
                t.acn["size"] = ("term", "".join(r.choice("01") for _ in range(r.choice([8, 16]))) if k == "OCT" else "".join(r.choice("01") for _ in range(r.choice([6, 8, 16]))))
                self.feats.add((k, "term"))
        if not isref:
            self.align(t)

    def must_int(self, lo, hi, inh):
        p = self.int_props(lo, hi)
        if inh.get("endian") and "endian" not in p:
            p["endian"] = "big"
        return p

    # ---------------- structure
    def run(self):
        self.uses = {}
        self.contained = set()
        def chain(t):
            while t.kind == "REF":
                t = t.ref.t
                yield t
        def note(t, owner, child):
            if t.kind in ("OCTCONT", "BITCONT"):
                self.contained.update(id(x) for x in chain(T("REF", ref=t.ref)))
            if t.kind in ("REF", "OCTCONT", "BITCONT"):
                ok = owner is not None and t.kind == "REF" and not t.cons and not hasattr(t, "suffix")
                self.uses.setdefault(t.ref.name, []).append(child if ok else None)
            for c in t.children or []:
                note(c.t, t if t.kind in ("SEQ", "SET") else None, c)
            if t.elem is not None:
                note(t.elem, None, None)
        for a in self.g.types:
            note(a.t, None, None)
        for a in list(self.g.types):
            us = self.uses.get(a.name, [])
            self.can_param = bool(us) and all(u is not None for u in us)
            self.params = []
            self.walk(a.t, True)
            a.params = self.params or None
            if a.params:
                self.feats.add(("params", base(a.t)[0].kind, len(a.params)))
        k = len(self.newenums)
        self.g.types[0:0] = self.newenums
        if self.g.split is not None:
            self.g.split += k
        return self

    def walk(self, t, top=False):
        k = t.kind
        if k in ("OCTCONT", "BITCONT"):
            return
        if k == "REF":
            b, _ = base(t)
            if b.kind in ("INT", "REAL"):
                self.leaf(t)
            return
        if k in ("SEQ", "SET"):
            for c in t.children:
                self.walk(c.t)
            self.seq(t, top)
            if not top or self.r.random() < .5:
                self.align(t)
        elif k == "CHOICE":
            for c in t.children:
                self.walk(c.t)
            if top and self.can_param and self.r.random() < self.p_params:
                self.choice_det(t, t, self.param_host(), lambda v: v)
            self.align(t)
        elif k in ("SEQOF", "SETOF"):
            self.walk(t.elem)
            if self.r.random() < .07 and acn_size(t.elem)[0] > 0 and len(set(size_range(t))) > 1:     # elements of no bits cannot be told from none
                t.acn["size"] = ("term", "".join(self.r.choice("01") for _ in range(self.r.choice([8, 16, 24]))))
                self.feats.add(("seqof", "term"))
            self.align(t)
        else:
            self.leaf(t)
        if top and self.can_param and k in ("OCT", "BIT", "STR", "SEQOF", "SETOF") and self.r.random() < self.p_params and not isinstance(t.acn.get("size"), tuple):
            lo, hi = size_range(t)
            d = self.param_host()("size", (lo, hi))
            t.acn["size"] = ("ext", d.name)
            d.consumers.append(lambda v: len(v))

    def param_host(self):
        def make(kind, info):
            t = {"size": lambda: T("INT"), "bool": lambda: T("BOOL"), "enum": lambda: T("REF", ref=info), "int": lambda: T("INT"), "str": lambda: T("REF", ref=info)}[kind]()
            d = Det(self.name("pm"), kind, t)
            d.info = info
            self.params.append(d)
            return d
        return make

    def det_type(self, kind, info):
        """type and encoding of an ACN-only child"""
        r = self.r
        if kind == "bool":
            return T("BOOL")
        if kind == "enum" or kind == "str":
            return T("REF", ref=info)
        lo, hi = info
        if kind == "size":
            x = r.random()
            m = max(1, nbits(hi))
            if x < .6:
                n = r.choice([z for z in (8, 16, 32, 64) if z >= m]) if r.random() < .7 else r.randrange(m, m + 6)
                t = T("INT", acn={"enc": "pos-int", "size": n})
                if n in (16, 32, 64) and r.random() < .5:
                    t.acn["endian"] = "little"
            elif x < .7:
                t = T("INT", acn={"enc": "ASCII", "size": 8 * (len(str(hi)) + 1 + r.randrange(2))})
            elif x < .8:
                t = T("INT", acn={"enc": "BCD", "size": 4 * (len(str(hi)) + r.randrange(3))})
            else:
                t = T("INT", acn={"enc": "twos-complement", "size": r.choice([z for z in (8, 16, 32, 64) if z > m])})
        else:
            n = max(octbits(lo), octbits(hi))
            if lo >= 0:
                t = T("INT", acn={"enc": "pos-int", "size": r.choice([z for z in (8, 16, 32) if z >= n])})
            else:
                t = T("INT", acn={"enc": "twos-complement", "size": r.choice([z for z in (8, 16, 32) if z >= n])})
        self.align(t)
        return t

    def seq(self, t, top):
        r = self.r
        hosts = []          # (index of the child it must precede, det)

        def host_for(i):
            """a maker of determinants for the child at index i of this SEQUENCE"""
            def make(kind, info):
                # reuse one that precedes the child
                if kind in ("bool", "size") and r.random() < .2:
                    for c, d in getattr(t, "dets", ()):
                        if d.kind == kind and (kind == "bool" or d.info[1] >= info[1]) and d.where <= i and not d.deep:
                            self.feats.add(("shared", kind))
                            return d
                if top and self.can_param and r.random() < self.p_params * .6:
                    return self.param_host()(kind, info)
                d = Det(self.name("dt"), kind, self.det_type(kind, info))
                d.info, d.deep = info, None
                c = Child(d.name, d.t)
                c.acn = d
                # inside an inline SEQUENCE that precedes the child?
                inl = [x for x in asn[:i] if x.t.kind in ("SEQ", "SET") and not x.opt]
                if inl and r.random() < .3:
                    h = r.choice(inl)
                    d.deep = h.name
                    h.t.children.insert(r.randint(0, len(h.t.children)), c)
                    self.feats.add(("deep", kind))
                    d.where = i
                else:
                    d.where = r.randint(0, i)
                    hosts.append((d.where, c))
                if not hasattr(t, "dets"):
                    t.dets = []
                t.dets.append((c, d))
                return d
            return make

        asn = [c for c in t.children if c.acn is None]
        for i, c in enumerate(asn):
            get = (lambda nm: lambda v: v.get(nm))(c.name)
            b, _ = base(c.t)
            host = host_for(i)
            if c.t.kind == "REF" and c.t.ref.params:
                c.t.args = []
                for pd in c.t.ref.params:
                    d = host(pd.kind, pd.info)
                    c.t.args.append(self.path(d))
                    d.consumers.append((lambda pd, get: lambda v: None if get(v) is None else param_value(pd, get(v)))(pd, get))
                    self.link(t, d)
            elif b.kind in ("OCT", "BIT", "STR", "SEQOF", "SETOF") and r.random() < self.p_det * .6 and not isinstance(props(c.t).get("size"), tuple):
                lo, hi = size_range(c.t)
                d = host("size", (lo, hi))
                c.t.acn["size"] = ("ext", self.path(d))
                d.consumers.append((lambda get, lo, hi: lambda v: None if get(v) is None else len(get(v)))(get, lo, hi))
                self.link(t, d, c)
                self.feats.add(("ext", b.kind, c.t.kind == "REF", lo == hi))
            elif c.t.kind == "OCTCONT" and base(T("REF", ref=c.t.ref))[0].kind in ("SEQ", "SET", "CHOICE") and self.cont_ext and not loose_real(c.t) and r.random() < self.p_det:
                mn, mx, _ = acn_size(T("REF", ref=c.t.ref))
                d = host("size", (0, (mx + 7) // 8))
                c.t.acn["size"] = ("ext", self.path(d))
                d.consumers.append((lambda get, t: lambda v: None if get(v) is None else len(cont_bits(t, get(v))[0]) // 8)(get, c.t))
                self.link(t, d)
                self.feats.add(("ext", "OCTCONT"))
            elif c.t.kind == "CHOICE" and r.random() < self.p_det:
                self.choice_det(c.t, c.t, host, get, t)
            if c.opt and r.random() < self.p_det and inmost(c.t).kind not in ("OID", "ROID"):     # the compiler refuses any property on those
                e = self.expr(asn[:i]) if r.random() < .35 else None
                if e:
                    c.when = ("expr",) + e
                    self.feats.add(("when", "expr"))
                else:
                    d = host("bool", None)
                    c.when = ("bool", self.path(d))
                    d.consumers.append((lambda nm: lambda v: nm in v)(c.name))
                    self.link(t, d)
                    self.feats.add(("when", "bool"))
        if r.random() < .12:
            # a pattern between the fields
            d = Det(self.name("np"), "null", T("NULL", acn={"pattern": "".join(r.choice("01") for _ in range(r.choice([1, 5, 8, 16])))}))
            d.info = d.deep = None
            c = Child(d.name, d.t)
            c.acn = d
            hosts.append((r.randint(0, len(asn)), c))
            if not hasattr(t, "dets"):
                t.dets = []
            t.dets.append((c, d))
            self.feats.add(("null-field",))
        # put the determinants in place: those of index i come before child i
        hosts.sort(key=lambda x: x[0])
        out = []
        k = 0
        ai = 0
        for c in t.children:
            if c.acn is None:
                while k < len(hosts) and hosts[k][0] <= ai:
                    out.append(hosts[k][1]); k += 1
                ai += 1
            out.append(c)
        out += [x[1] for x in hosts[k:]]
        t.children = out

    def path(self, d):
        deep = getattr(d, "deep", None)
        return "%s.%s" % (deep, d.name) if deep else d.name

    def link(self, t, d, c=None):
        """values that give a shared determinant different values are made to agree"""
        if len(d.consumers) < 2 or d in self.params:
            if not hasattr(d, "first"):
                d.first = c
            return
        if not hasattr(t, "fixups"):
            t.fixups = []
        gen = self.gen
        if d.kind == "bool":
            asn = [x for x in t.children if x.acn is None and x.opt]
            def agree(v, d=d):
                vs = [f(v) for f in d.consumers]
                if len(set(x for x in vs if x is not None)) > 1:
                    for x in asn:
                        if getattr(x, "when", None) and x.when[0] == "bool" and x.when[1].split(".")[-1] == d.name and x.name not in v:
                            v[x.name] = fix(gen, x.t, rand.value_of(gen, x.t))
            t.fixups.append(agree)
        elif d.kind == "size" and c is not None and getattr(d, "first", None) is not None:
            def same(v, a=d.first, b=c):
                x, y = v.get(a.name), v.get(b.name)
                if x is None or y is None:
                    return
                n = min(len(x), len(y))
                if valid(a.t, x[:n]) and valid(b.t, y[:n]):
                    v[a.name], v[b.name] = x[:n], y[:n]
            t.fixups.append(same)

    def choice_det(self, t, ch, host, get, owner=None):
        r = self.r
        if any(getattr(c, "when", None) for c in t.children) or t.acn.get("det"):
            return
        oid = any(inmost(c.t).kind in ("OID", "ROID") for c in t.children)
        names = [c.name for c in t.children]
        x = r.random()
        if x < .5 or oid:
            # an enumeration with the names of the alternatives
            vals = sorted(r.sample(range(0, max(200, 2 * len(names))), len(names)))      # the compiler wants the order of the alternatives
            items = [(n, v, True) for n, v in zip(names, vals)]
            e = Assignment("Sel%s%d" % (r.choice(["-", "q"]), len(self.newenums) + 1 + 50 * self.n), T("ENUM", items=items))
            e.params = None
            if r.random() < .6:
                self.leaf_enum(e.t)
            self.newenums.append(e)
            d = host("enum", e)
            t.acn["det"] = self.path(d)
            d.consumers.append(lambda v: None if get(v) is None else get(v)[0])
            self.feats.add(("choice", "enum"))
        else:
            vals = r.sample(range(0, 120), len(names))
            d = host("int", (0, max(vals)))
            two = r.random() < .25
            d2 = host("int", (0, 3)) if two else None
            v2 = [r.randrange(4) for _ in names]
            if d2 is d:
                d2 = None
            for c, v, w in zip(t.children, vals, v2):
                c.when = [(self.path(d), v)] + ([(self.path(d2), w)] if d2 else [])
            m = dict(zip(names, vals))
            d.consumers.append(lambda v: None if get(v) is None else m[get(v)[0]])
            if d2:
                m2 = dict(zip(names, v2))
                d2.consumers.append(lambda v: None if get(v) is None else m2[get(v)[0]])
            self.feats.add(("choice", "int", two))

    def leaf_enum(self, t):
        if self.r.random() < .6:
            t.acn["encval"] = True
        lo, hi = enum_range(t, t.acn)
        t.acn.update(self.int_props(lo, hi))

    # ---------------- presence expressions
    def expr(self, before):
        r = self.r
        ints = []
        for c in before:
            if c.opt or base(c.t)[0].kind not in ("INT", "BOOL"):
                continue
            if base(c.t)[0].kind == "INT":
                lo, hi = int_range(c.t)
                if lo is None or hi is None or not -(1 << 30) <= lo <= hi <= 1 << 30:
                    continue
            ints.append(c)
        if not ints:
            return None
        def atom():
            c = r.choice(ints)
            n = c.name
            if base(c.t)[0].kind == "BOOL":
                if r.random() < .5:
                    return n, lambda v: v[n]
                return "!" + n, lambda v: not v[n]
            lo, hi = int_range(c.t)
            k = r.randint(lo, hi)
            op = r.choice(["==", "!=", "<", "<=", ">", ">="])
            f = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}[op]
            if lo >= 0 and r.random() < .35:
                m = r.choice([2, 3, 4, 7])
                k = r.randrange(m)
                kind = r.choice(["%", "*", "+"])
                if kind == "%":
                    return "(%s %% %d) %s %d" % (n, m, op, k), lambda v: f(v[n] % m, k)
                if kind == "*":
                    k = r.randint(lo, hi) * m
                    return "(%s * %d) %s %d" % (n, m, op, k), lambda v: f(v[n] * m, k)
                return "(%s + %d) %s %d" % (n, m, op, k + m), lambda v: f(v[n] + m, k + m)
            return "%s %s %d" % (n, op, k), lambda v: f(v[n], k)
        s, f = atom()
        for _ in range(r.choice([0, 0, 1, 2])):
            s2, f2 = atom()
            if r.random() < .5:
                s, f = "(%s) and (%s)" % (s, s2), (lambda f, f2: lambda v: f(v) and f2(v))(f, f2)
            else:
                s, f = "(%s) or (%s)" % (s, s2), (lambda f, f2: lambda v: f(v) or f2(v))(f, f2)
        return s, f


def param_value(pd, v):
    vs = []
    for f in pd.consumers:
        x = f(v)
        if x is not None:
            vs.append(x)
    if not vs:
        return None
    if any(x != vs[0] for x in vs):
        raise Refuse(pd.name)
    return vs[0]


def octbits(v):
    """bits of v in two's complement"""
    return (v.bit_length() if v >= 0 else (-v - 1).bit_length()) + 1


# ------------------------------------------------------------------ ACN text
def hexpat(s):
    if len(s) % 8 == 0:
        return "'%0*X'H" % (len(s) // 4, int(s, 2))
    return "'%s'B" % s


def props_text(t, when=None, extra=()):
    p, o = t.acn, list(extra)
    if p.get("encval"):
        o.append("encode-values")
    if "enc" in p:
        o.append("encoding " + p["enc"])
    sz = p.get("size")
    if sz == "null":
        o.append("size null-terminated")
        if "term" in p:
            o.append("termination-pattern " + hexpat(p["term"]))
    elif isinstance(sz, tuple) and sz[0] == "ext":
        o.append("size " + sz[1])
    elif isinstance(sz, tuple):
        o.append("size null-terminated")
        o.append("termination-pattern " + hexpat(sz[1]))
    elif sz is not None:
        o.append("size %d" % sz)
    if "endian" in p:
        o.append("endianness " + p["endian"])
    if "align" in p:
        o.append("align-to-next " + {8: "byte", 16: "word", 32: "dword"}[p["align"]])
    if "true" in p:
        o.append("true-value '%s'B" % p["true"])
    if "false" in p:
        o.append("false-value '%s'B" % p["false"])
    if "pattern" in p:
        o.append("pattern " + hexpat(p["pattern"]))
    if "det" in p:
        o.append("determinant " + p["det"])
    if "map" in p:
        o.append("mapping-function " + p["map"])
    if isinstance(when, tuple):
        o.append("present-when " + ("(%s)" % when[1] if when[0] == "expr" else when[1]))
    elif when:
        o.append("present-when " + " ".join("%s==%d" % x for x in when))
    return "[%s]" % ", ".join(o)


def type_name(t):
    return {"INT": "INTEGER", "BOOL": "BOOLEAN", "NULL": "NULL"}.get(t.kind) or t.ref.name


def spec_text(t, ind="  ", when=None):
    s = props_text(t, when)
    k = t.kind
    inner = ind + "  "
    if k in ("SEQ", "SET", "CHOICE") and t.children:
        rows = []
        for c in t.children:
            if c.acn is not None:
                rows.append("%s%s %s %s" % (inner, c.name, type_name(c.t), props_text(c.t)))
            else:
                args = "<%s> " % ", ".join(c.t.args) if c.t.args else ""
                rows.append("%s%s %s%s" % (inner, c.name, args, spec_text(c.t, inner, getattr(c, "when", None))))
        s += " {\n%s\n%s}" % (",\n".join(rows), ind)
    elif k in ("SEQOF", "SETOF"):
        e = spec_text(t.elem, inner)
        if e != "[]":
            s += " { %s }" % e
    elif k == "ENUM" and t.acn.get("items"):
        s += " { %s }" % ", ".join("%s [%d]" % kv for kv in t.acn["items"].items())
    return s


def acn_text(g):
    """-> {file name: text}"""
    def one(a):
        ps = "<%s>" % ", ".join("%s: %s" % (type_name(d.t), d.name) for d in a.params) if getattr(a, "params", None) else ""
        return "%s%s %s" % (a.name, ps, spec_text(a.t, ""))
    def f(mod, types):
        return "%s DEFINITIONS ::= BEGIN\n\n%s\n\nEND\n" % (mod, "\n\n".join(one(a) for a in types))
    if g.split is None:
        return {"a.acn": f(g.modname, g.types)}
    return {"a.acn": f(g.modname, g.types[:g.split]), "b.acn": f(g.modname + "2", g.types[g.split:])}
