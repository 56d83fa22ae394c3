"""Independent models of the uPER (X.691) and ACN field encodings, one generator per codec family of the runtimes.

gen(r, w) -> Case: a value together with the operation that encodes it, the bits it must become and the operations
that must decode these bits (w is the integer width of the runtime, 64 or 32).
bad(r, w) -> (decode operation, bits, class): complete encodings that denote no value of the field; decoding must fail."""
from .bits import *


class Case:
    __slots__ = ("fam", "enc", "bits", "decs", "cls", "ada")

    def __init__(self, fam, enc, bits, decs, cls, ada=True):
        self.fam, self.enc, self.bits, self.decs, self.cls, self.ada = fam, enc, bits, decs, cls, ada


GEN, BAD = {}, {}


def gen(name):
    def d(f):
        GEN[name] = f
        return f
    return d


def bad(name):
    def d(f):
        BAD[name] = f
        return f
    return d


def ru(r, nbits):
    """non negative value below 2^nbits, boundary biased"""
    if nbits == 0:
        return 0
    n = r.randrange(nbits + 1)
    k = r.randrange(6)
    if k == 0:
        return (1 << n) - 1
    if k == 1:
        return min(1 << n, (1 << nbits) - 1)
    if k == 2:
        return r.choice([0, 1, (1 << nbits) - 1, (1 << nbits) - 2 if nbits > 1 else 0])
    if k == 3:
        return min(10 ** r.randrange(len(str(1 << nbits))) - r.randrange(2), (1 << nbits) - 1)
    return r.getrandbits(n) if n else 0


def rs(r, nbits):
    """signed value of nbits bits"""
    v = ru(r, nbits - 1) if nbits > 1 else 0
    return v if r.randrange(2) else -v - 1


def rng_s(r, w):
    a, b = rs(r, w), rs(r, w)
    k = r.randrange(6)
    if k == 0:
        b = a
    elif k == 1:
        b = min(a + ru(r, r.randrange(1, 20)), (1 << (w - 1)) - 1)
    elif k == 2:
        a, b = -(1 << (w - 1)), (1 << (w - 1)) - 1
    elif k == 3:
        q = r.choice([8, 16, 32])
        a, b = -(1 << (q - 1)), (1 << (q - 1)) - 1
    return min(a, b), max(a, b)


def rng_u(r, w):
    a, b = ru(r, w), ru(r, w)
    k = r.randrange(6)
    if k == 0:
        b = a
    elif k == 1:
        b = min(a + ru(r, r.randrange(1, 20)), (1 << w) - 1)
    elif k == 2:
        a, b = 0, (1 << w) - 1
    elif k == 3:
        a, b = 0, (1 << r.choice([8, 16, 32])) - 1
    return min(a, b), max(a, b)


def within(r, a, b):
    k = r.randrange(5)
    if k == 0:
        return a
    if k == 1:
        return b
    if k == 2:
        return min(a + r.randrange(4), b)
    if k == 3:
        return max(b - ru(r, max((b - a).bit_length(), 1)), a)
    return r.randint(a, b)


def slim_s(a, b):
    return [q for q in (8, 16, 32) if -(1 << (q - 1)) <= a and b < (1 << (q - 1))]


def slim_u(a, b):
    return [q for q in (8, 16, 32) if b < (1 << q)]


def minoct_u(v):
    n = max(1, (v.bit_length() + 7) // 8)
    return ub(v, n * 8)


def minoct_s(v):
    n = max(1, ((v if v >= 0 else -v - 1).bit_length() + 8) // 8)
    return sb(v, n * 8)


def szc(n):
    return n if n < 9 else (10 * len(str(n)))


# ---------------------------------------------------------------------------------------------- uPER integers
@gen("uper.constrained.s")
def _(r, w):
    a, b = rng_s(r, w)
    v = within(r, a, b)
    n = (b - a).bit_length()
    return Case("uper.constrained.s", "BitStream_EncodeConstraintWholeNumber %d %d %d" % (v, a, b), ub(v - a, n),
                [("BitStream_DecodeConstraintWholeNumber %d %d" % (a, b), [str(v)])] +
                [("BitStream_DecodeConstraintWholeNumberInt%d %d %d" % (q, a, b), [str(v)]) for q in slim_s(a, b)], n)


@bad("uper.constrained.s")
def _(r, w):
    a, b = rng_s(r, w)
    n = (b - a).bit_length()
    if b - a == (1 << n) - 1:
        return None
    x = within(r, b - a + 1, (1 << n) - 1)
    ops = ["BitStream_DecodeConstraintWholeNumber"] + ["BitStream_DecodeConstraintWholeNumberInt%d" % q for q in slim_s(a, b)]
    return "%s %d %d" % (r.choice(ops), a, b), ub(x, n), n


@gen("uper.constrained.u")
def _(r, w):
    a, b = rng_u(r, w)
    v = within(r, a, b)
    n = (b - a).bit_length()
    return Case("uper.constrained.u", "BitStream_EncodeConstraintPosWholeNumber %d %d %d" % (v, a, b), ub(v - a, n),
                [("BitStream_DecodeConstraintPosWholeNumber %d %d" % (a, b), [str(v)])] +
                [("BitStream_DecodeConstraintPosWholeNumberUInt%d %d %d" % (q, a, b), [str(v)]) for q in slim_u(a, b)], n)


@bad("uper.constrained.u")
def _(r, w):
    a, b = rng_u(r, w)
    n = (b - a).bit_length()
    if b - a == (1 << n) - 1:
        return None
    x = within(r, b - a + 1, (1 << n) - 1)
    ops = ["BitStream_DecodeConstraintPosWholeNumber"] + ["BitStream_DecodeConstraintPosWholeNumberUInt%d" % q for q in slim_u(a, b)]
    return "%s %d %d" % (r.choice(ops), a, b), ub(x, n), n


@gen("uper.semi.s")
def _(r, w):
    a, v = sorted((rs(r, w), rs(r, w)))
    if r.randrange(4) == 0:
        v = min(a + ru(r, 20), (1 << (w - 1)) - 1)
    o = minoct_u(v - a)
    return Case("uper.semi.s", "BitStream_EncodeSemiConstraintWholeNumber %d %d" % (v, a), ub(len(o) // 8, 8) + o,
                [("BitStream_DecodeSemiConstraintWholeNumber %d" % a, [str(v)])], len(o) // 8)


@gen("uper.semi.u")
def _(r, w):
    a, v = sorted((ru(r, w), ru(r, w)))
    if r.randrange(4) == 0:
        v = min(a + ru(r, 20), (1 << w) - 1)
    o = minoct_u(v - a)
    return Case("uper.semi.u", "BitStream_EncodeSemiConstraintPosWholeNumber %d %d" % (v, a), ub(len(o) // 8, 8) + o,
                [("BitStream_DecodeSemiConstraintPosWholeNumber %d" % a, [str(v)])], len(o) // 8)


def badlen(r, w):
    n = r.choice([w // 8 + 1, w // 8 + 2, 64, 127])
    return ub(n, 8) + "1" * (8 * n)


@bad("uper.semi.s")
def _(r, w):
    a = rs(r, w)
    top = (1 << (w - 1)) - 1
    k = r.randrange(2)
    if k == 0 or a <= -(1 << (w - 1)):
        return "BitStream_DecodeSemiConstraintWholeNumber %d" % a, badlen(r, w), "len"
    x = within(r, top - a + 1, (1 << w) - 1) if top - a + 1 < (1 << w) else None
    if x is None:
        return None
    return "BitStream_DecodeSemiConstraintWholeNumber %d" % a, ub(w // 8, 8) + ub(x, w), "overflow"


@bad("uper.semi.u")
def _(r, w):
    a = ru(r, w)
    if r.randrange(2) or a == 0:
        return "BitStream_DecodeSemiConstraintPosWholeNumber %d" % a, badlen(r, w), "len"
    x = within(r, (1 << w) - a, (1 << w) - 1)
    return "BitStream_DecodeSemiConstraintPosWholeNumber %d" % a, ub(w // 8, 8) + ub(x, w), "overflow"


@gen("uper.unconstrained")
def _(r, w):
    v = rs(r, w)
    o = minoct_s(v)
    return Case("uper.unconstrained", "BitStream_EncodeUnConstraintWholeNumber %d" % v, ub(len(o) // 8, 8) + o,
                [("BitStream_DecodeUnConstraintWholeNumber", [str(v)])], len(o) // 8 * (1 if v >= 0 else -1))


@bad("uper.unconstrained")
def _(r, w):
    return "BitStream_DecodeUnConstraintWholeNumber", badlen(r, w), "len"


@gen("uper.bool")
def _(r, w):
    b = r.randrange(2)
    return Case("uper.bool", "BitStream_AppendBit %d" % b, str(b), [("BitStream_ReadBit", [str(b)])], b)


# ---------------------------------------------------------------------------------------------- uPER strings
def len_unconstrained(total, bits, unit):
    """X.691 10.9.3: fragments; bits = contents, unit = bits per item"""
    out, off = "", 0
    while total - off >= 0x4000:
        k = min(4, (total - off) // 0x4000)
        out += "11" + ub(k, 6) + bits[off * unit:(off + k * 0x4000) * unit]
        off += k * 0x4000
    rest = total - off
    out += ub(rest, 8) if rest < 128 else "10" + ub(rest, 14)
    return out + bits[off * unit:]


BIGSIZES = [127, 128, 129, 255, 256, 1000, 16383, 16384, 16385, 32767, 32768, 32769, 49152, 49153, 65535, 65536, 65537, 81920, 98304, 114688, 131071, 131072, 131073]


def length_cls(n):
    return n if n < 10 else "k%d.%d" % (n // 16384, n % 16384 if n % 16384 < 3 else 3) if n >= 16383 else "m%d" % (n >= 128)


BIG = [0.0]     # probability of a large (fragmented) value; the checks raise it for dedicated runs


def rsize(r, cap=10 ** 9):
    if r.random() < BIG[0]:
        return min(cap, r.choice(BIGSIZES))
    return min(cap, r.choice([0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 33]))


def bounds(r, n):
    """(min, max) legal for a value of size n; max may exceed 64K to force the general length form"""
    k = r.randrange(7)
    if n >= 65536 or k == 0:
        return r.choice([0, n, n // 2]), r.choice([max(n, 65536), max(n, 70000), max(n, 140000)])
    if k == 1:
        return n, n
    if k == 2:
        return 0, n
    if k == 3:
        return n, n + 1
    lo = r.randint(max(0, n - 5), n)
    hi = n + r.choice([0, 1, 2, 7, 100, 255, 256, 65535 - n])
    return lo, min(hi, 65535)


def uper_len(n, lo, hi, bits, unit):
    if hi < 65536:
        return (ub(n - lo, (hi - lo).bit_length()) if lo != hi else "") + bits
    return len_unconstrained(n, bits, unit)


def rb(r, n):
    k = r.random()
    return ("0" * n if k < .08 else "1" * n if k < .16 else ub(r.getrandbits(n), n)) if n else ""


@gen("uper.octets")
def _(r, w):
    n = rsize(r)
    lo, hi = bounds(r, n)
    b = rb(r, n * 8)
    return Case("uper.octets", "BitStream_EncodeOctetString %d %d %s" % (lo, hi, tohex(b)), uper_len(n, lo, hi, b, 8),
                [("BitStream_DecodeOctetString %d %d" % (lo, hi), [str(n), tohex(b)])], (length_cls(n), lo == hi, hi >= 65536))


@gen("uper.octets.fragmented")
def _(r, w):
    n = rsize(r)
    hi = max(n, r.choice([n, n + 1, n + 200, 70000]))
    b = rb(r, n * 8)
    return Case("uper.octets.fragmented", "BitStream_EncodeOctetString_fragmentation %s" % tohex(b), len_unconstrained(n, b, 8),
                [("BitStream_DecodeOctetString_fragmentation %d" % hi, [str(n), tohex(b)])], length_cls(n))


@gen("uper.bits")
def _(r, w):
    n = rsize(r)
    lo, hi = bounds(r, n)
    b = rb(r, n)
    src = tobytes(b + rb(r, -n % 8))          # junk in the unused bits of the last octet must not be encoded
    return Case("uper.bits", "BitStream_EncodeBitString %d %d %d %s" % (lo, hi, n, hx(src)), uper_len(n, lo, hi, b, 1),
                [("BitStream_DecodeBitString %d %d" % (lo, hi), [str(n), tohex(b)])], (length_cls(n), lo == hi, hi >= 65536))


def _badsize(r, unit):
    k = r.randrange(3)
    if k == 0:      # constrained length above the maximum
        lo = r.randrange(5)
        hi = lo + r.choice([2, 4, 5, 6, 9, 16, 100, 200])
        nb = (hi - lo).bit_length()
        if hi - lo == (1 << nb) - 1:
            return None
        x = r.randint(hi - lo + 1, (1 << nb) - 1)
        return lo, hi, ub(x, nb) + rb(r, (lo + x) * unit), "constrained"
    # general form: too many or too few items, or a reserved fragment count
    hi = 65536 + r.randrange(3)
    if k == 1:
        lo = r.choice([1, 5, 130])
        n = r.randrange(lo)
        return lo, hi, len_unconstrained(n, rb(r, n * unit), unit), "few"
    return 0, hi, "11" + ub(r.choice([0, 5, 6, 63]), 6) + rb(r, 400), "reserved"


@bad("uper.octets")
def _(r, w):
    x = _badsize(r, 8)
    return x and ("BitStream_DecodeOctetString %d %d" % x[:2], x[2], x[3])


@bad("uper.bits")
def _(r, w):
    x = _badsize(r, 1)
    return x and ("BitStream_DecodeBitString %d %d" % x[:2], x[2], x[3])


@bad("uper.octets.fragmented")
def _(r, w):
    n = r.choice([1, 3, 127, 128, 200])
    hi = n - 1
    return "BitStream_DecodeOctetString_fragmentation %d" % hi, len_unconstrained(n, rb(r, n * 8), 8), "many"


# ---------------------------------------------------------------------------------------------- object identifiers
def subid(v):
    out = [v & 127]
    v >>= 7
    while v:
        out.append(v & 127 | 128)
        v >>= 7
    return bytes(reversed(out))


def oidcontents(vals, rel):
    subs = list(vals) if rel else [vals[0] * 40 + vals[1]] + list(vals[2:])
    return b"".join(subid(s) for s in subs)


def oidbits(c):
    n = len(c)
    return (ub(n, 8) if n < 128 else "1" + ub(n, 15)) + bytesbits(c)


def oidvals(r, w, rel):
    n = r.choice([1, 2, 3, 4, 7, 19, 20] if rel else [2, 2, 3, 4, 7, 19, 20])
    v = [ru(r, w) for _ in range(n)]
    if not rel:
        v[0] = r.randrange(3)
        v[1] = r.choice([0, 1, 39, r.randrange(40)])
    return v


for _rel, _nm in ((0, "ObjectIdentifier"), (1, "RelativeOID")):
    def _g(r, w, rel=_rel, nm=_nm):
        v = oidvals(r, w, rel)
        c = oidcontents(v, rel)
        return Case("uper." + nm, "%s_uper_encode %d %s" % (nm, len(v), " ".join(map(str, v))), oidbits(c),
                    [("%s_uper_decode" % nm, ["%d" % len(v) + "".join(":%d" % x for x in v)])], (len(v), len(c) > 127))

    def _b(r, w, rel=_rel, nm=_nm):
        v = oidvals(r, w, rel)
        c = bytearray(oidcontents(v, rel))
        k = r.randrange(3)
        if k == 0:      # last subidentifier incomplete
            c[-1] |= 128
            return nm + "_uper_decode", oidbits(bytes(c)), "incomplete"
        if k == 1:      # subidentifier that does not fit the integer type
            c += b"\xff" * (w // 7 + 1) + b"\x01"
            return (nm + "_uper_decode", oidbits(bytes(c)), "toolarge") if len(v) < 20 else None
        x = [1] * 30
        return nm + "_uper_decode", oidbits(oidcontents(x, 1)), "toomany"
    GEN["uper." + _nm] = _g
    BAD["uper." + _nm] = _b

# ---------------------------------------------------------------------------------------------- ACN integers
PI, TC = "Acn_%s_Int_PositiveInteger_", "Acn_%s_Int_TwosComplement_"


def slimdecs(base, v, signed, args=""):
    """narrow decoders must deliver the value when it fits their type"""
    res = []
    for q in (8, 16, 32):
        fits = -(1 << (q - 1)) <= v < (1 << (q - 1)) if signed else v < (1 << q)
        res.append(("%s%s%d%s" % (base, "Int" if signed else "UInt", q, args), [str(v)] if fits else None))
    return res


@gen("acn.pos.const")
def _(r, w):
    n = r.randrange(1, w + 1)
    v = ru(r, n)
    return Case("acn.pos.const", (PI % "Enc") + "ConstSize %d %d" % (v, n), ub(v, n),
                [((PI % "Dec") + "ConstSize %d" % n, [str(v)])] + slimdecs((PI % "Dec") + "ConstSize", v, 0, " %d" % n), n)


@gen("acn.two.const")
def _(r, w):
    n = r.randrange(1, w + 1)
    v = rs(r, n)
    return Case("acn.two.const", (TC % "Enc") + "ConstSize %d %d" % (v, n), sb(v, n),
                [((TC % "Dec") + "ConstSize %d" % n, [str(v)])] + slimdecs((TC % "Dec") + "ConstSize", v, 1, " %d" % n), (n, v < 0))


def _endian(signed):
    base, fam = (TC, "acn.two.endian") if signed else (PI, "acn.pos.endian")

    def g(r, w):
        e = r.choice(["8", "big_endian_16", "big_endian_32", "big_endian_64", "little_endian_16", "little_endian_32", "little_endian_64"])
        n = int(e.split("_")[-1])
        v = rs(r, min(n, w)) if signed else ru(r, min(n, w))
        b = sb(v, n)
        if e.startswith("little"):
            b = swap(b)
        decs = [((base % "Dec") + "ConstSize_" + e, [str(v)])]
        for q in (8, 16, 32):
            if q <= n and not (n == 8 and q > 8):
                fits = -(1 << (q - 1)) <= v < (1 << (q - 1)) if signed else v < (1 << q)
                decs.append(((base % "Dec") + "ConstSize_%s%s%d" % (e, "Int" if signed else "UInt", q), [str(v)] if fits else None))
        return Case(fam, (base % "Enc") + "ConstSize_%s %d" % (e, v), b, decs, (e, v < 0, v.bit_length() // 8))
    GEN[fam] = g


_endian(0)
_endian(1)


@gen("acn.pos.var")
def _(r, w):
    v = ru(r, w)
    o = minoct_u(v)
    return Case("acn.pos.var", (PI % "Enc") + "VarSize_LengthEmbedded %d" % v, ub(len(o) // 8, 8) + o,
                [((PI % "Dec") + "VarSize_LengthEmbedded", [str(v)])] + slimdecs((PI % "Dec") + "VarSize_LengthEmbedded", v, 0), len(o))


@gen("acn.two.var")
def _(r, w):
    v = rs(r, w)
    o = minoct_s(v)
    return Case("acn.two.var", (TC % "Enc") + "VarSize_LengthEmbedded %d" % v, ub(len(o) // 8, 8) + o,
                [((TC % "Dec") + "VarSize_LengthEmbedded", [str(v)])] + slimdecs((TC % "Dec") + "VarSize_LengthEmbedded", v, 1), (len(o), v < 0))


@bad("acn.pos.var")
def _(r, w):
    return (PI % "Dec") + "VarSize_LengthEmbedded" + r.choice(["", "UInt8", "UInt32"]), badlen(r, w), "len"


@bad("acn.two.var")
def _(r, w):
    return (TC % "Dec") + "VarSize_LengthEmbedded" + r.choice(["", "Int8", "Int32"]), badlen(r, w), "len"


def bcd(v, n=None):
    s = str(v) if v else ""
    if n is not None:
        s = s.rjust(n, "0")
    return "".join(ub(int(c), 4) for c in s), len(s)


@gen("acn.bcd.const")
def _(r, w):
    v = ru(r, w)
    n = max(len(str(v)), r.randrange(1, 21))
    return Case("acn.bcd.const", "Acn_Enc_Int_BCD_ConstSize %d %d" % (v, n), bcd(v, n)[0],
                [("Acn_Dec_Int_BCD_ConstSize %d" % n, [str(v)])] + slimdecs("Acn_Dec_Int_BCD_ConstSize", v, 0, " %d" % n), (n, len(str(v))))


@gen("acn.bcd.var")
def _(r, w):
    v = ru(r, w)
    b, n = bcd(v)
    return Case("acn.bcd.var", "Acn_Enc_Int_BCD_VarSize_LengthEmbedded %d" % v, ub(n, 8) + b,
                [("Acn_Dec_Int_BCD_VarSize_LengthEmbedded", [str(v)])] + slimdecs("Acn_Dec_Int_BCD_VarSize_LengthEmbedded", v, 0), n)


@gen("acn.bcd.null")
def _(r, w):
    v = ru(r, w)
    b, n = bcd(v)
    return Case("acn.bcd.null", "Acn_Enc_Int_BCD_VarSize_NullTerminated %d" % v, b + "1111",
                [("Acn_Dec_Int_BCD_VarSize_NullTerminated", [str(v)])] + slimdecs("Acn_Dec_Int_BCD_VarSize_NullTerminated", v, 0), n)


def toobig(w, signed):
    return (1 << (w - 1 if signed else w))


@bad("acn.bcd.const")
def _(r, w):
    k = r.randrange(2)
    n = r.randrange(1, 22)
    d = [r.randrange(10) for _ in range(n)]
    if k == 0:
        d[r.randrange(n)] = r.randrange(10, 16)
    else:
        d = [int(c) for c in str(toobig(w, 0) + r.choice([0, 1, 10 ** 18, 10 ** 25]))]
    b = "".join(ub(x, 4) for x in d)
    if r.randrange(2):
        return "Acn_Dec_Int_BCD_ConstSize%s %d" % (r.choice(["", "UInt8", "UInt16", "UInt32"]), len(d)), b, k
    return "Acn_Dec_Int_BCD_VarSize_LengthEmbedded" + r.choice(["", "UInt8", "UInt16", "UInt32"]), ub(len(d), 8) + b, k


@bad("acn.bcd.null")
def _(r, w):
    d = [int(c) for c in str(toobig(w, 0) + r.choice([0, 1, 10 ** 18, 10 ** 30]))]
    return "Acn_Dec_Int_BCD_VarSize_NullTerminated" + r.choice(["", "UInt8", "UInt16", "UInt32"]), "".join(ub(x, 4) for x in d) + "1111", 2


def asc(s):
    return bytesbits(s.encode("latin1"))


TERMS = [b"\0", b"\r\n", b"\xff", b"END", b"\0\0\0", b"\0\x01\0\x02", b"aab", b"ABABC", b"\xff" * 10]


def _ascii(signed):
    T = "SInt" if signed else "UInt"
    fam = "acn.ascii.%s." % ("s" if signed else "u")
    rv = (lambda r, w: rs(r, w)) if signed else ru

    def digits(v, n=None):
        s = str(abs(v))
        if n:
            s = s.rjust(n - signed, "0")
        return (("-" if v < 0 else "+") if signed else "") + s

    def g1(r, w):
        v = rv(r, w)
        n = max(len(str(abs(v))) + signed, r.randrange(1 + signed, 22))
        return Case(fam + "const", "Acn_Enc_%s_ASCII_ConstSize %d %d" % (T, v, n), asc(digits(v, n)),
                    [("Acn_Dec_%s_ASCII_ConstSize %d" % (T, n), [str(v)])] + slimdecs("Acn_Dec_%s_ASCII_ConstSize" % T, v, signed, " %d" % n), (n, len(str(abs(v))), v < 0))

    def g2(r, w):
        v = rv(r, w)
        s = digits(v)
        return Case(fam + "var", "Acn_Enc_%s_ASCII_VarSize_LengthEmbedded %d" % (T, v), ub(len(s), 8) + asc(s),
                    [("Acn_Dec_%s_ASCII_VarSize_LengthEmbedded" % T, [str(v)])] + slimdecs("Acn_Dec_%s_ASCII_VarSize_LengthEmbedded" % T, v, signed), (len(s), v < 0))

    def g3(r, w):
        v = rv(r, w)
        t = r.choice(TERMS)
        s = digits(v)
        a = " " + t.hex()
        return Case(fam + "null", "Acn_Enc_%s_ASCII_VarSize_NullTerminated %d%s" % (T, v, a), asc(s) + bytesbits(t),
                    [("Acn_Dec_%s_ASCII_VarSize_NullTerminated%s" % (T, a), [str(v)])] + slimdecs("Acn_Dec_%s_ASCII_VarSize_NullTerminated" % T, v, signed, a), (len(s), v < 0, t))

    def b1(r, w):
        k = r.randrange(3)
        slim = r.choice(["", "8", "16", "32"])
        slim = slim and ("Int" if signed else "UInt") + slim
        n = r.randrange(1, 21)
        s = "".join(r.choice("0123456789") for _ in range(n))
        sg = r.choice("+-") if signed else ""
        if k == 0:
            i = r.randrange(n)
            s = s[:i] + r.choice("/:;aA \0\xff-+.") + s[i + 1:]
        elif k == 1 and signed:
            sg = r.choice("0123456789 */,")
        else:
            s = str((1 << (w - 1)) + (1 if sg == "-" else 0) + r.choice([0, 1, 5, 10 ** 17, 10 ** 24]) if signed else (1 << w) + r.choice([0, 1, 5, 10 ** 17, 10 ** 24]))
            k = 2
        s = sg + s
        f = r.randrange(3)
        if f == 0:
            return "Acn_Dec_%s_ASCII_ConstSize%s %d" % (T, slim, len(s)), asc(s), (k, f)
        if f == 1:
            return "Acn_Dec_%s_ASCII_VarSize_LengthEmbedded%s" % (T, slim), ub(len(s), 8) + asc(s), (k, f)
        return "Acn_Dec_%s_ASCII_VarSize_NullTerminated%s 0d0a" % (T, slim), asc(s) + "0000110100001010", (k, f)
    GEN[fam + "const"], GEN[fam + "var"], GEN[fam + "null"], BAD[fam + "bad"] = g1, g2, g3, b1


_ascii(0)
_ascii(1)


# ---------------------------------------------------------------------------------------------- ACN reals, booleans, strings
import struct

F64 = [0.0, -0.0, 1.0, -1.5, float("inf"), float("-inf"), 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 1 / 3]
F32 = [0.0, -0.0, 1.0, -1.5, float("inf"), float("-inf"), 1.401298464324817e-45, 1.1754943508222875e-38, 3.4028234663852886e38]


def rf64(r):
    k = r.randrange(4)
    if k == 0:
        return r.choice(F64)
    while True:
        d = struct.unpack(">d", struct.pack(">Q", r.getrandbits(64)))[0]
        if d == d:
            return d


def rf32(r):
    k = r.randrange(4)
    if k == 0:
        return r.choice(F32)
    while True:
        d = struct.unpack(">f", struct.pack(">I", r.getrandbits(32)))[0]
        if d == d:
            return d


def dhex(d):
    return struct.pack(">d", d).hex()


@gen("acn.real")
def _(r, w):
    e = r.choice(["big", "little"])
    n = r.choice([32, 64])
    if n == 64:
        d = rf64(r)
        b = struct.pack(">d" if e == "big" else "<d", d)
        decs = [("Acn_Dec_Real_IEEE754_64_%s_endian" % e, [dhex(d)])]
    else:
        d = rf32(r)
        b = struct.pack(">f" if e == "big" else "<f", d)
        decs = [("Acn_Dec_Real_IEEE754_32_%s_endian" % e, [dhex(d)]), ("Acn_Dec_Real_IEEE754_32_%s_endian_fp32" % e, [struct.pack(">f", d).hex()])]
    return Case("acn.real", "Acn_Enc_Real_IEEE754_%d_%s_endian %s" % (n, e, dhex(d)), bytesbits(b), decs, (n, e))


@gen("acn.bool")
def _(r, w):
    n = r.randrange(1, 41)
    t = rb(r, n)
    f = "".join("10"[int(c)] for c in t)
    k = r.randrange(3)
    T, F = tohex(t), tohex(f)
    if k == 0:
        return Case("acn.bool.true", "BitStream_AppendBits %d %s" % (n, T), t, [("BitStream_ReadBitPattern %s %d" % (T, n), ["1"]), ("BitStream_DecodeTrueFalseBoolean %s %s %d" % (T, F, n), ["1"]), ("BitStream_ReadBitPattern_ignore_value %d" % n, [])], n)
    if k == 1:
        return Case("acn.bool.false", "BitStream_AppendBits %d %s" % (n, F), f, [("BitStream_ReadBitPattern %s %d" % (T, n), ["0"]), ("BitStream_DecodeTrueFalseBoolean %s %s %d" % (T, F, n), ["0"]), ("BitStream_ReadBitPattern_ignore_value %d" % n, [])], n)
    i = r.randrange(n)
    x = t[:i] + "10"[int(t[i])] + t[i + 1:]
    return Case("acn.bool.other", "BitStream_AppendBits %d %s" % (n, tohex(x)), x, [("BitStream_ReadBitPattern %s %d" % (T, n), ["0"])], n)


@bad("acn.bool")
def _(r, w):
    n = r.randrange(2, 41)
    t = rb(r, n)
    f = "".join("10"[int(c)] for c in t)
    i = r.randrange(n)
    x = t[:i] + "10"[int(t[i])] + t[i + 1:]
    return "BitStream_DecodeTrueFalseBoolean %s %s %d" % (tohex(t), tohex(f), n), x, n


def rstr(r, n, alphabet):
    return bytes(r.choice(alphabet) for _ in range(n))


ALL = bytes(range(1, 128))


def strval(s, mx):
    return (s + b"\0" * (mx + 1 - len(s))).hex()


@gen("acn.string.ascii")
def _(r, w):
    n = r.choice([0, 1, 2, 5, 8, 20])
    mx = n + r.choice([0, 0, 1, 5])
    s = rstr(r, n, ALL)
    b = bytesbits(s)
    k = r.randrange(3)
    if k == 0:
        s = rstr(r, mx, ALL)
        return Case("acn.string.ascii.fix", "Acn_Enc_String_Ascii_FixSize %d %s" % (mx, hx(s)), bytesbits(s), [("Acn_Dec_String_Ascii_FixSize %d" % mx, [strval(s, mx)])], mx)
    if k == 1:
        return Case("acn.string.ascii.ext", "Acn_Enc_String_Ascii_External_Field_Determinant %d %s" % (mx, hx(s)), b, [("Acn_Dec_String_Ascii_External_Field_Determinant %d %d" % (mx, n), [strval(s, mx)])], (n, mx - n))
    mn = r.randrange(n + 1)
    return Case("acn.string.ascii.int", "Acn_Enc_String_Ascii_Internal_Field_Determinant %d %d %s" % (mx, mn, hx(s)), ub(n - mn, (mx - mn).bit_length()) + b,
                [("Acn_Dec_String_Ascii_Internal_Field_Determinant %d %d" % (mx, mn), [strval(s, mx)])], (n, mx - n, mn))


@gen("acn.string.charindex")
def _(r, w):
    cs = bytes(sorted(r.sample(range(32, 127), r.choice([1, 2, 3, 4, 5, 10, 16, 26, 32, 33, 64, 90]))))
    nb = (len(cs) - 1).bit_length()
    n = r.choice([0, 1, 2, 5, 8, 20])
    mx = n + r.choice([0, 0, 1, 5])
    s = rstr(r, n, cs)
    b = "".join(ub(cs.index(c), nb) for c in s)
    k = r.randrange(3)
    if k == 0:
        s = rstr(r, mx, cs)
        return Case("acn.string.charindex.fix", "Acn_Enc_String_CharIndex_FixSize %d %s %s" % (mx, hx(cs), hx(s)), "".join(ub(cs.index(c), nb) for c in s), [("Acn_Dec_String_CharIndex_FixSize %d %s" % (mx, hx(cs)), [strval(s, mx)])], (mx, nb))
    if k == 1:
        return Case("acn.string.charindex.ext", "Acn_Enc_String_CharIndex_External_Field_Determinant %d %s %s" % (mx, hx(cs), hx(s)), b,
                    [("Acn_Dec_String_CharIndex_External_Field_Determinant %d %s %d" % (mx, hx(cs), n), [strval(s, mx)])], (n, mx - n, nb))
    mn = r.randrange(n + 1)
    return Case("acn.string.charindex.int", "Acn_Enc_String_CharIndex_Internal_Field_Determinant %d %s %d %s" % (mx, hx(cs), mn, hx(s)), ub(n - mn, (mx - mn).bit_length()) + b,
                [("Acn_Dec_String_CharIndex_Internal_Field_Determinant %d %s %d" % (mx, hx(cs), mn), [strval(s, mx)])], (n, mx - n, nb))


@gen("acn.string.ia5")
def _(r, w):
    n = r.choice([0, 1, 2, 5, 8, 20])
    mx = n + r.choice([0, 0, 1, 5])
    s = rstr(r, n, ALL)
    b = "".join(ub(c, 7) for c in s)
    if r.randrange(2):
        return Case("acn.string.ia5.ext", "Acn_Enc_IA5String_CharIndex_External_Field_Determinant %d %s" % (mx, hx(s)), b,
                    [("Acn_Dec_IA5String_CharIndex_External_Field_Determinant %d %d" % (mx, n), [strval(s, mx)])], (n, mx - n))
    mn = r.randrange(n + 1)
    return Case("acn.string.ia5.int", "Acn_Enc_IA5String_CharIndex_Internal_Field_Determinant %d %d %s" % (mx, mn, hx(s)), ub(n - mn, (mx - mn).bit_length()) + b,
                [("Acn_Dec_IA5String_CharIndex_Internal_Field_Determinant %d %d" % (mx, mn), [strval(s, mx)])], (n, mx - n))


@gen("acn.string.null")
def _(r, w):
    n = r.choice([0, 1, 2, 5, 8, 20])
    mx = n + r.choice([0, 0, 1, 5])
    if r.randrange(2):
        t = bytes([r.choice([0, 0, 10, 34, 126])])
        al = bytes(c for c in ALL if c != t[0])
        s = rstr(r, n, al)
        return Case("acn.string.null1", "Acn_Enc_String_Ascii_Null_Terminated %d %d %s" % (mx, t[0], hx(s)), bytesbits(s + t),
                    [("Acn_Dec_String_Ascii_Null_Terminated %d %d" % (mx, t[0]), [strval(s, mx)])], (n, mx - n, t))
    t = r.choice(TERMS)
    while True:
        s = rstr(r, n, r.choice([ALL, t.replace(b"\0", b"x") + b"a"]))
        if s.replace(b"\0", b"") == s and (s + t).index(t) == len(s):
            break
        n = max(0, n - 1)
    return Case("acn.string.nullm", "Acn_Enc_String_Ascii_Null_Terminated_mult %d %s %s" % (mx, t.hex(), hx(s)), bytesbits(s + t),
                [("Acn_Dec_String_Ascii_Null_Terminated_mult %d %s" % (mx, t.hex()), [strval(s, mx)])], (n, mx - n, t))


@bad("acn.string")
def _(r, w):
    k = r.randrange(4)
    if k == 0:      # character index out of the alphabet
        cs = bytes(range(65, 65 + r.choice([3, 5, 9, 26, 33])))
        nb = (len(cs) - 1).bit_length()
        n = r.randrange(1, 6)
        ix = [r.randrange(len(cs)) for _ in range(n)]
        ix[r.randrange(n)] = r.randrange(len(cs), 1 << nb)
        b = "".join(ub(i, nb) for i in ix)
        f = r.randrange(2)
        if f:
            return "Acn_Dec_String_CharIndex_FixSize %d %s" % (n, cs.hex()), b, k
        return "Acn_Dec_String_CharIndex_External_Field_Determinant %d %s %d" % (n + 2, cs.hex(), n), b, k
    if k == 1:      # no terminator within the maximum size
        mx = r.randrange(0, 9)
        return "Acn_Dec_String_Ascii_Null_Terminated %d 0" % mx, bytesbits(rstr(r, mx + 2, ALL) + b"\0"), k
    if k == 2:
        mx = r.randrange(0, 9)
        t = r.choice([b"\r\n", b"\0\0", b"\xff\0\xff"])
        return "Acn_Dec_String_Ascii_Null_Terminated_mult %d %s" % (mx, t.hex()), bytesbits(rstr(r, mx + 1, bytes(range(32, 127))) + t), k
    mn = r.randrange(3)
    mx = mn + r.choice([2, 4, 5, 6])
    nb = (mx - mn).bit_length()
    if mx - mn == (1 << nb) - 1:
        return None
    x = r.randint(mx - mn + 1, (1 << nb) - 1)
    return "Acn_Dec_String_Ascii_Internal_Field_Determinant %d %d" % (mx, mn), ub(x, nb) + bytesbits(rstr(r, x + mn, ALL)), k


@gen("acn.length")
def _(r, w):
    n = r.randrange(1, 33)
    v = ru(r, min(n, 31))
    return Case("acn.length", "Acn_Enc_Length %d %d" % (v, n), ub(v, n), [("Acn_Dec_Length %d" % n, [str(v)])], n)
