"""Grammar model: ASN.1 types, constraints, values, their ASN.1 text and the reference uPER encoding.

Everything here is written from X.680/X.691; the few places where asn1scc documents or shows its own profile are marked PROFILE."""
import struct
from fractions import Fraction

# ------------------------------------------------------------------ character sets (canonical order = code order)
CHARSETS = {
    "NumericString": " 0123456789",
    "PrintableString": "".join(sorted("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 '()+,-./:=?")),
    "VisibleString": "".join(map(chr, range(32, 127))),
    "IA5String": "".join(map(chr, range(0, 128))),
}


class T:
    """One occurrence of a type."""
    def __init__(self, kind, **kw):
        self.kind = kind          # INT BOOL NULL REAL ENUM OCT BIT STR SEQ SET CHOICE SEQOF SETOF OID ROID REF OCTCONT BITCONT
        self.cons = []            # serial constraints
        self.items = None         # ENUM: [(name, value, explicit)]
        self.children = None      # SEQ/SET/CHOICE: [Child]
        self.elem = None          # SEQOF/SETOF
        self.ref = None           # REF/OCTCONT/BITCONT: Assignment
        self.charset = None       # STR
        self.named = None         # BIT: [(name, bit)]; INT: [(name, value)]
        self.acn = {}             # ACN properties of this occurrence
        self.args = None          # REF: actual ACN arguments
        self.__dict__.update(kw)


class Child:
    def __init__(self, name, t, opt=None, default=None):
        self.name, self.t, self.opt, self.default = name, t, opt, default   # opt: None 'OPTIONAL' 'DEFAULT'
        self.acn = None           # ACN-only child: dict


class Assignment:
    def __init__(self, name, t):
        self.name, self.t = name, t
        self.params = None        # ACN parameters
        self.module = 0


def c_name(s):
    return s.replace("-", "_")


# ------------------------------------------------------------------ constraints
# ('val', v) ('range', lo|None, hi|None, loIn, hiIn) ('union', a, b) ('inter', a, b) ('except', a, b) ('allexcept', a)
# ('size', c) ('from', c) over characters: ('chars', "abc") ('crange', a, b, a included, b included)
def holds(c, v, parent=lambda v: True):
    k = c[0]
    if k == "val":
        return v == c[1]
    if k == "range":
        lo, hi = c[1], c[2]
        return (lo is None or (v >= lo if c[3] else v > lo)) and (hi is None or (v <= hi if c[4] else v < hi))
    if k == "union":
        return holds(c[1], v) or holds(c[2], v)
    if k == "inter":
        return holds(c[1], v) and holds(c[2], v)
    if k == "except":
        return holds(c[1], v) and not holds(c[2], v)
    if k == "allexcept":
        return not holds(c[1], v)
    if k == "size":
        return holds(c[1], len(v))
    if k == "from":
        return all(char_ok(c[1], ch) for ch in v)
    if k == "bit":      # single bit string value
        return v == c[1]
    if k == "wc":       # WITH COMPONENT
        return all(holds(c[1], plain(c[2], x)) for x in v)
    if k == "wcs":      # WITH COMPONENTS {..., name (constraint) presence}: [(name, type, constraint, presence)]
        for name, ty, con, pres in c[1]:
            here = name in v if isinstance(v, dict) else v[0] == name
            if pres == "PRESENT" and not here or pres == "ABSENT" and here:
                return False
            if here and con is not None and not holds(con, plain(ty, v[name] if isinstance(v, dict) else v[1])):
                return False
        return True
    raise ValueError(k)


def plain(t, v):
    """the value as constraints see it"""
    return b2f(v) if base(t)[0].kind == "REAL" else v


def char_ok(c, ch):
    k = c[0]
    if k == "chars":
        return ch in c[1]
    if k == "crange":
        return (c[1] is None or c[1] < ch or c[3] and c[1] == ch) and (c[2] is None or ch < c[2] or c[4] and c[2] == ch)
    if k == "union":
        return char_ok(c[1], ch) or char_ok(c[2], ch)
    if k == "inter":
        return char_ok(c[1], ch) and char_ok(c[2], ch)
    raise ValueError(k)


def r_union(a, b):
    return (None if a[0] is None or b[0] is None else min(a[0], b[0]), None if a[1] is None or b[1] is None else max(a[1], b[1]))


def r_inter(a, b):
    lo = a[0] if b[0] is None else b[0] if a[0] is None else max(a[0], b[0])
    hi = a[1] if b[1] is None else b[1] if a[1] is None else min(a[1], b[1])
    return (lo, hi)


FULL = (None, None)


def rng(c, step=1):
    """Smallest/largest value a PER-visible constraint admits. PROFILE: the part after EXCEPT is ignored."""
    k = c[0]
    if k == "val":
        return (c[1], c[1])
    if k == "range":
        lo, hi = c[1], c[2]
        return (lo if lo is None or c[3] else lo + step, hi if hi is None or c[4] else hi - step)
    if k == "union":
        return r_union(rng(c[1]), rng(c[2]))
    if k == "inter":
        return r_inter(rng(c[1]), rng(c[2]))
    if k == "except":
        return rng(c[1])
    if k == "allexcept":
        return FULL
    raise ValueError(k)


def size_rng(c):
    k = c[0]
    if k == "size":
        return rng(c[1])
    if k == "union":
        return r_union(size_rng(c[1]), size_rng(c[2]))
    if k == "inter":
        return r_inter(size_rng(c[1]), size_rng(c[2]))
    if k == "except":
        return size_rng(c[1])
    if k in ("val", "bit"):
        return (len(c[1]), len(c[1]))     # PROFILE: a single value bounds the size
    return FULL


def alpha(c, base):
    """Effective permitted alphabet as a set. """
    k = c[0]
    if k == "from":
        return set(ch for ch in base if char_ok(c[1], ch))
    if k == "union":
        return alpha(c[1], base) | alpha(c[2], base)
    if k == "inter":
        return alpha(c[1], base) & alpha(c[2], base)
    if k == "except":
        return alpha(c[1], base)
    return set(base)


# ------------------------------------------------------------------ resolved view of a type
def base(t):
    """(underlying type, all constraints from the reference chain)"""
    cons = list(t.cons)
    while t.kind == "REF":
        t = t.ref.t
        cons = list(t.cons) + cons
    return t, cons


def int_range(t):
    b, cons = base(t)
    r = FULL
    for c in cons:
        r = r_inter(r, rng(c))
    return r


def is_unsigned(t):
    lo, hi = int_range(t)
    return lo is not None and lo >= 0


def size_range(t):
    b, cons = base(t)
    r = FULL
    for c in cons:
        r = r_inter(r, size_rng(c))
    return r


def alphabet(t):
    b, cons = base(t)
    a = set(CHARSETS[b.charset])
    for c in cons:
        a &= alpha(c, CHARSETS[b.charset])
    return "".join(sorted(a))


def valid(t, v, deep=True):
    """Does v satisfy the type and all its constraints?"""
    b, cons = base(t)
    k = b.kind
    if k == "ENUM":
        return v in [x[1] for x in b.items] and all(holds(c, v) for c in cons)
    if k == "INT":
        lo, hi = int_range(t)
        return all(holds(c, v) for c in cons)
    if k == "STR":
        return all(ch in CHARSETS[b.charset] for ch in v) and all(holds(c, v) for c in cons)
    if k == "REAL":
        return all(holds(c, b2f(v)) for c in cons)
    if k in ("OCT", "BIT", "BOOL"):
        return all(holds(c, v) for c in cons)
    if k in ("SEQ", "SET"):
        return all(holds(c, v) for c in cons) and all(valid(ch.t, v[ch.name]) for ch in b.children if ch.acn is None and ch.name in v and not (ch.opt == "DEFAULT" and ch.name not in v))
    if k == "CHOICE":
        ch = [x for x in b.children if x.name == v[0]][0]
        return all(holds(c, v) for c in cons) and valid(ch.t, v[1])
    if k in ("SEQOF", "SETOF"):
        return all(holds(c, v) for c in cons) and all(valid(b.elem, x) for x in v)
    if k in ("OCTCONT", "BITCONT"):
        return valid(b.ref.t, v)
    return True


# ------------------------------------------------------------------ bits
def nbits(n):
    """bits needed for values 0..n"""
    return n.bit_length()


def ub(v, n):
    return bin(v)[2:].zfill(n) if n else ""


def octs_unsigned(v):
    return max(1, (v.bit_length() + 7) // 8)


def octs_signed(v):
    n = 1
    while not -(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1)):
        n += 1
    return n


def enc_int(v, lo, hi):
    if lo is not None and hi is not None:
        return ub(v - lo, nbits(hi - lo))
    if lo is not None:
        n = octs_unsigned(v - lo)
        return ub(n, 8) + ub(v - lo, 8 * n)
    n = octs_signed(v)
    return ub(n, 8) + ub(v & ((1 << (8 * n)) - 1), 8 * n)


def real_contents(bits64):
    """X.690 contents octets of a double. PROFILE: base 2, mantissa stripped of trailing zero bits as asn1scc does."""
    s, e, m = bits64 >> 63, (bits64 >> 52) & 0x7FF, bits64 & ((1 << 52) - 1)
    if e == 0 and m == 0:
        return b"\x43" if s else b""
    if e == 0x7FF:
        return b"\x42" if m else (b"\x41" if s else b"\x40")
    return None


def oid_contents(v, relative=False):
    ids = list(v) if relative else [v[0] * 40 + v[1]] + list(v[2:])
    out = []
    for x in ids:
        b = [x & 0x7F]
        x >>= 7
        while x:
            b.append(0x80 | (x & 0x7F)); x >>= 7
        out += b[::-1]
    return bytes(out)


def bytes_bits(b):
    return "".join(format(x, "08b") for x in b)


class W:
    """Bit writer.  When `actual` (what the real code produced) is given, REAL contents at the same position are taken from it
    if they legally denote the value: X.690 leaves the sender the choice of mantissa and exponent."""
    def __init__(self, actual=None, pos=0):
        self.parts, self.pos, self.actual = [], pos, actual

    def put(self, s):
        self.parts.append(s); self.pos += len(s)

    def bits(self):
        return "".join(self.parts)

    def real(self, bits64):
        c = real_enc(bits64)
        if self.actual is not None:
            a = self.actual[self.pos:self.pos + 8]
            if len(a) == 8:
                n = int(a, 2)
                body = self.actual[self.pos + 8:self.pos + 8 + 8 * n]
                if n < 128 and len(body) == 8 * n:
                    o = bytes(int(body[x:x + 8], 2) for x in range(0, 8 * n, 8))
                    if denotes(o, bits64):
                        c = o
        self.put(ub(len(c), 8) + bytes_bits(c))


def put_items(w, n, lo, hi, emit):
    """Length determinant plus items; emit(i, j) writes items i..j-1."""
    if hi is not None and hi < 65536:
        if lo != hi:
            w.put(ub(n - (lo or 0), nbits(hi - (lo or 0))))
        emit(0, n)
        return
    i = 0
    while True:
        rem = n - i
        if rem >= 16384:
            m = min(4, rem // 16384)
            w.put("11" + ub(m, 6)); emit(i, i + m * 16384)
            i += m * 16384
        elif rem >= 128:
            w.put("10" + ub(rem, 14)); emit(i, n)
            return
        else:
            w.put("0" + ub(rem, 7)); emit(i, n)
            return


def denotes(c, bits64):
    """Do contents octets c legally denote the double (base 2, minimal octets)?"""
    sp = real_contents(bits64)
    if sp is not None:
        return c == sp
    if len(c) < 3 or not c[0] & 0x80 or c[0] & 0x3C:
        return False
    n = (c[0] & 3) + 1
    if n == 4 or len(c) < 1 + n + 1 or c[1 + n] == 0:
        return False
    e = int.from_bytes(c[1:1 + n], "big", signed=True)
    if octs_signed(e) != n or len(c) > 12:
        return False
    return Fraction(int.from_bytes(c[1 + n:], "big")) * Fraction(2) ** e * (-1 if c[0] & 0x40 else 1) == Fraction(b2f(bits64))


def uper(t, v, actual=None):
    """Reference encoding as a bit string."""
    w = W(actual)
    put_uper(w, t, v)
    return w.bits()


def str_coder(t):
    a = alphabet(t)
    n = nbits(len(a) - 1)
    if ord(a[-1]) < (1 << n):
        return lambda ch: ub(ord(ch), n)
    return lambda ch: ub(a.index(ch), n)


def put_uper(w, t, v):
    b, cons = base(t)
    k = b.kind
    if k == "INT":
        w.put(enc_int(v, *int_range(t)))
    elif k == "BOOL":
        w.put("1" if v else "0")
    elif k == "NULL":
        pass
    elif k == "REAL":
        w.real(v)
    elif k == "ENUM":
        vals = sorted(x[1] for x in b.items)
        w.put(ub(vals.index(v), nbits(len(vals) - 1)))
    elif k == "OCT":
        lo, hi = size_range(t)
        put_items(w, len(v), lo, hi, lambda i, j: w.put(bytes_bits(v[i:j])))
    elif k == "BIT":
        lo, hi = size_range(t)
        put_items(w, len(v), lo, hi, lambda i, j: w.put(v[i:j]))
    elif k == "STR":
        lo, hi = size_range(t)
        enc = str_coder(t)
        put_items(w, len(v), lo, hi, lambda i, j: w.put("".join(map(enc, v[i:j]))))
    elif k in ("SEQ", "SET"):
        chs = [c for c in b.children if c.acn is None]
        w.put("".join("1" if c.name in v else "0" for c in chs if c.opt))
        for c in chs:
            if c.name in v:
                put_uper(w, c.t, v[c.name])
    elif k == "CHOICE":
        names = [c.name for c in b.children]
        i = names.index(v[0])
        w.put(ub(i, nbits(len(names) - 1)))
        put_uper(w, b.children[i].t, v[1])
    elif k in ("SEQOF", "SETOF"):
        lo, hi = size_range(t)
        def emit(i, j):
            for x in v[i:j]:
                put_uper(w, b.elem, x)
        put_items(w, len(v), lo, hi, emit)
    elif k in ("OID", "ROID"):
        c = oid_contents(v, k == "ROID")
        put_items(w, len(c), None, None, lambda i, j: w.put(bytes_bits(c[i:j])))
    elif k in ("OCTCONT", "BITCONT"):
        u = 8 if k == "OCTCONT" else 1
        mn, mx, _ = uper_size(b.ref.t)
        lo, hi = (mn + u - 1) // u, (mx + u - 1) // u      # PROFILE: the contents bound the length
        if hi >= 65536:
            raise NotImplementedError
        pos0 = w.pos + (0 if lo == hi else nbits(hi - lo))
        sub = W(w.actual[pos0:] if w.actual is not None else None)
        put_uper(sub, b.ref.t, v)
        s = sub.bits()
        s += "0" * (-len(s) % u)
        put_items(w, len(s) // u, lo, hi, lambda i, j: w.put(s))
    else:
        raise ValueError(k)


def uper_size(t):
    """(min bits, max bits, tight): tight when the maximum is reached by some value."""
    b, cons = base(t)
    k = b.kind
    if k == "INT":
        lo, hi = int_range(t)
        if lo is not None and hi is not None:
            n = nbits(hi - lo)
            return n, n, True
        return 8, 72, False
    if k == "BOOL":
        return 1, 1, True
    if k == "NULL":
        return 0, 0, True
    if k == "REAL":
        return 8, 104, False
    if k == "ENUM":
        n = nbits(len(b.items) - 1)
        return n, n, True
    if k in ("OCT", "BIT", "STR", "SEQOF", "SETOF"):
        lo, hi = size_range(t)
        lo = lo or 0
        if k == "OCT":
            a, z, tg = 8, 8, True
        elif k == "BIT":
            a, z, tg = 1, 1, True
        elif k == "STR":
            a = z = nbits(len(alphabet(t)) - 1); tg = True
        else:
            a, z, tg = uper_size(b.elem)
        if hi < 65536:
            ln = 0 if lo == hi else nbits(hi - lo)
            return lo * a + ln, hi * z + ln, tg and any_len_ok(t, hi)
        return lo * a, hi * z + (hi // 65536 + 3) * 8, False
    if k in ("SEQ", "SET"):
        mn = mx = 0
        tight = True
        for c in b.children:
            if c.acn is not None:
                continue
            a, z, tg = uper_size(c.t)
            tight = tight and tg
            mn += 1 if c.opt else a
            mx += z + (1 if c.opt else 0)
        return mn, mx, tight
    if k == "CHOICE":
        n = nbits(len(b.children) - 1)
        s = [uper_size(c.t) for c in b.children]
        mx = max(x[1] for x in s)
        return n + min(x[0] for x in s), n + mx, any(x[1] == mx and x[2] for x in s)
    if k in ("OCTCONT", "BITCONT"):
        u = 8 if k == "OCTCONT" else 1
        mn, mx, tg = uper_size(b.ref.t)
        lo, hi = (mn + u - 1) // u, (mx + u - 1) // u
        ln = 0 if lo == hi else nbits(hi - lo)
        return lo * u + ln, hi * u + ln, tg
    if k in ("OID", "ROID"):
        return 16, 16 + 20 * 128, False       # PROFILE: the compiler's estimate, which bounds containers
    raise ValueError(k)


def any_len_ok(t, n):
    """Is a value of size n admitted by the size constraints (as far as they are plain)?"""
    b, cons = base(t)
    try:
        return all(size_holds(c, n) for c in cons)
    except ValueError:
        return False


def size_holds(c, n):
    k = c[0]
    if k == "size":
        return holds(c[1], n)
    if k == "union":
        return size_holds(c[1], n) or size_holds(c[2], n)
    if k == "inter":
        return size_holds(c[1], n) and size_holds(c[2], n)
    if k == "from":
        return True
    raise ValueError(k)


def real_enc(bits64):
    """Contents octets in the profile of the runtime (checked against exact arithmetic by P04)."""
    c = real_contents(bits64)
    if c is not None:
        return c
    s, e, m = bits64 >> 63, (bits64 >> 52) & 0x7FF, bits64 & ((1 << 52) - 1)
    if e:
        m |= 1 << 52
        e -= 1075
    else:
        e = -1074
    while m % 2 == 0:
        m //= 2; e += 1
    eo = octs_signed(e)
    mo = octs_unsigned(m)
    return bytes([0x80 | (0x40 if s else 0) | (eo - 1)]) + (e & ((1 << (8 * eo)) - 1)).to_bytes(eo, "big") + m.to_bytes(mo, "big")


def f2b(x):
    return struct.unpack(">Q", struct.pack(">d", x))[0]


def b2f(b):
    return struct.unpack(">d", struct.pack(">Q", b))[0]
