"""P04: REAL values survive the uPER binary encoding exactly; legal foreign encodings decode to the number they denote."""
import struct
from fractions import Fraction
from vlib.common import *
from vlib.bits import *
from vlib import rt, rtgen
from vlib.codecs import dhex


def canonical(m, e, neg):
    """X.690 8.5 / 11.3 base 2 contents octets of (-1)^neg * m * 2^e, m > 0"""
    while m % 2 == 0:
        m //= 2
        e += 1
    n = max(1, ((e if e >= 0 else -e - 1).bit_length() + 8) // 8)
    head = 0x80 | (0x40 if neg else 0) | (n - 1 if n < 4 else 3)
    return bytes([head]) + (bytes([n]) if n > 3 else b"") + (e & ((1 << 8 * n) - 1)).to_bytes(n, "big") + m.to_bytes((m.bit_length() + 7) // 8, "big")


def contents(d):
    if d != d:
        return b"\x42"
    if d == float("inf"):
        return b"\x40"
    if d == float("-inf"):
        return b"\x41"
    if d == 0:
        return b"\x43" if struct.pack(">d", d)[0] else b""
    m, q = abs(d).as_integer_ratio()
    return canonical(m, -(q.bit_length() - 1), d < 0)


def denotes(c, d):
    """None when c is a legal X.690 encoding denoting exactly d in the runtime's profile (base 2, F = 0, no redundant
    leading octets), otherwise what is wrong"""
    if d != d or d == 0 or abs(d) == float("inf"):
        return None if c == contents(d) else "special value encoded as %s" % c.hex()
    if len(c) < 3 or not c[0] & 0x80:
        return "not a binary encoding"
    if c[0] & 0x30 or c[0] & 0x0C:
        return "base or scaling factor"
    n = (c[0] & 3) + 1
    if n == 4:
        return "long exponent form for a short exponent"
    ex, ma = c[1:1 + n], c[1 + n:]
    if not ma or ma[0] == 0:
        return "mantissa octets"
    e = int.from_bytes(ex, "big", signed=True)
    if n > 1 and len(ex) == n and ((e if e >= 0 else -e - 1).bit_length() + 8) // 8 < n:
        return "exponent octets"
    v = Fraction(int.from_bytes(ma, "big")) * (Fraction(2) ** e) * (-1 if c[0] & 0x40 else 1)
    if v != Fraction(d):
        return "denotes %s" % (float(v) if abs(v) < 2 ** 1020 else "another number")
    if 1 + len(c) > 13:
        return "longer than the advertised 13 octets"
    return None


def foreign(r, d):
    """another legal binary encoding of the same finite, non zero number"""
    m, q = abs(d).as_integer_ratio()
    e = -(q.bit_length() - 1)
    while m % 2 == 0:
        m //= 2
        e += 1
    lb = r.choice([1, 3, 4])
    F = r.randrange(4)
    # m * 2^e = N * 2^F * (2^lb)^E
    E = (e - F) // lb - r.randrange(3)
    sh = e - F - lb * E
    N = m << sh
    n = max(1, ((E if E >= 0 else -E - 1).bit_length() + 8) // 8) + r.choice([0, 0, 1])
    body = N.to_bytes((N.bit_length() + 7) // 8 + r.choice([0, 0, 0, 1]), "big")
    if len(body) > 8:
        return None
    long = n > 3 or r.random() < .15
    head = 0x80 | (0x40 if d < 0 else 0) | {1: 0, 3: 0x10, 4: 0x20}[lb] | F << 2 | (3 if long else n - 1)
    c = bytes([head]) + (bytes([n]) if long else b"") + (E & ((1 << 8 * n) - 1)).to_bytes(n, "big") + body
    return c, (lb, F, n, long, len(body))


def rdouble(r, single):
    while True:
        k = r.randrange(8)
        if single:
            x = r.getrandbits(32)
            if k == 0: x &= 0x807FFFFF                     # subnormal / zero
            if k == 1: x = x & 0x80000000 | r.choice([0, 1, 0x7F800000, 0x7F7FFFFF, 0x00800000, 0x007FFFFF, 0x3F800000])
            if k == 2: x &= 0xFF800000 | (1 << r.randrange(23))
            d = struct.unpack(">f", struct.pack(">I", x))[0]
        else:
            x = r.getrandbits(64)
            if k == 0: x &= 0x800FFFFFFFFFFFFF
            if k == 1: x = x & (1 << 63) | r.choice([0, 1, 0x7FF << 52, (0x7FF << 52) - 1, 1 << 52, (1 << 52) - 1, 0x3FF << 52])
            if k == 2: x &= 0xFFF0000000000000 | (1 << r.randrange(52))
            if k == 3: d0 = float(r.choice([r.randrange(-1000, 1000), r.randrange(-1 << 53, 1 << 53), r.randrange(-10 ** 6, 10 ** 6) / 1000])); x = struct.unpack(">Q", struct.pack(">d", d0))[0]
            d = struct.unpack(">d", struct.pack(">Q", x))[0]
        if d == d:
            return d


def cls(d):
    if d == 0 or d != d or abs(d) == float("inf"):
        return str(d)
    m, e = __import__("math").frexp(d)
    return ("-" if d < 0 else "+", max(-1100, e // 16 * 16), len(contents(d)))


def same(vals, d, width):
    if len(vals) != 1:
        return False
    if width == 4:
        g = struct.unpack(">f", bytes.fromhex(vals[0]))[0]
        return g != g if d != d else struct.pack(">f", g) == struct.pack(">f", d)
    g = struct.unpack(">d", bytes.fromhex(vals[0]))[0]
    return g != g if d != d else dhex(g) == dhex(d)


def shard(rep, r, idx, bins, budget):
    t0 = time.time()
    while time.time() - t0 < budget:
        for tag, single, b in bins:
            L, E = [], []
            for _ in range(2500):
                start = r.randrange(8)
                kind = r.choice(["enc", "enc", "foreign", "trunc", "fp32", "hostile"])
                s32 = single or kind == "fp32"
                d = rdouble(r, s32) if r.random() > .02 else float("nan")
                c = contents(d)
                if kind == "enc":
                    bits = ub(len(c), 8) + bytesbits(c)
                    L.append("A 16 %s %d ; BitStream_EncodeReal %s ; getpos ; setpos %d ; BitStream_DecodeReal" % ("ff" * 16, start, dhex(d), start))
                    E.append((kind, d, start, None, cls(d)))
                    continue
                if kind == "foreign":
                    f = foreign(r, d) if d == d and d != 0 and abs(d) != float("inf") else None
                    if not f:
                        continue
                    c, k = f
                    bits = ub(len(c), 8) + bytesbits(c)
                elif kind == "hostile":
                    n = r.choice([1, 2, 3, 9, 12, 20, 127, 255])
                    bits = ub(r.choice([n, r.randrange(256)]), 8) + ub(r.choice([r.randrange(256), 0x80 | r.randrange(128)]), 8) + "".join(ub(r.choice([0, 255, r.randrange(256)]), 8) for _ in range(n))
                    k = None
                else:
                    bits = ub(len(c), 8) + bytesbits(c)
                    k = cls(d)
                if kind == "trunc":
                    avail = r.randrange(len(bits))
                    st = -avail % 8
                    cap = (avail + st) // 8
                    if not cap:
                        continue
                    L.append("A %d %s %d ; BitStream_DecodeReal" % (cap, tohex("0" * st + bits[:avail]), st))
                    E.append((kind, d, cap * 8, None, avail % 8))
                    continue
                end = start + len(bits)
                cap = (end + 7) // 8
                L.append("A %d %s %d ; BitStream_DecodeReal%s" % (cap, tohex("0" * start + bits), start, "_fp32" if kind == "fp32" else ""))
                E.append((kind, d, end, None, k))
            for l, (kind, d, end, buf, k), o in zip(L, E, rt.run_lines(b, L)):
                if o.startswith("CRASH"):
                    rep.violation("%s:crash:%s" % (tag, rt.crash_key(o)), o, l)
                    continue
                g, gb = rt.parse(o)
                rep.ok((tag, kind, k)); rep.count(kind)
                v = lambda key, what: rep.violation("%s:%s:%s" % (tag, kind, key), "%s (%r)" % (what, d), l)
                if kind == "enc":
                    hb, p = hexbits(gb), g[0][1]
                    e1 = (p - end) % 8 != 0 or p - end < 8
                    c = b"" if e1 else tobytes(hb[end + 8:p])
                    if e1 or uint(hb[end:end + 8]) != len(c) or "0" in hb[:end] or "0" in hb[p:]:
                        v("length", "position %d, buffer %s" % (p, gb))
                    elif denotes(c, d):
                        v("bytes", "%s: encoded as %s" % (denotes(c, d), c.hex()))
                    elif len(g) < 4 or g[3][0] != 1 or g[3][1] != p:
                        v("position", "answers %s" % g)
                    elif not same(g[3][2], d, 8):
                        v("roundtrip", "decoded as %s" % g[3][2])
                elif kind == "trunc":
                    if g[0][0] != 0 or g[0][1] > end:
                        v("accepted", "truncated encoding answers %s" % (g[0],))
                elif kind == "hostile":
                    if g[0][1] > len(gb) * 4:
                        v("position", "position past the end: %s" % (g[0],))
                elif g[0][0] != 1 or g[0][1] != end or not same(g[0][2], d, 4 if kind == "fp32" else 8):
                    v("value", "legal encoding %s of %r answers %s" % (gb, d, g[0]))
            if len(rep.samples) < 4:
                rep.samples += L[:2]


def main(rep):
    rep.rule = "distinct (configuration, direction, sign, exponent bucket, encoded length | base, scaling factor, exponent octets) observed and compared with exact rational arithmetic"
    rep.assumptions = ["NaN payloads are not carried by X.690 and not compared", "foreign encodings with mantissas above 8 octets are not generated"]
    with Scratch("p04") as d:
        src = rtgen.source()
        jobs = [("d8", 0, [], "gcc"), ("d4", 0, ["-DWORD_SIZE=4"], "gcc"), ("f4", 1, ["-DFP_WORD_SIZE=4"], "gcc"), ("f4w4", 1, ["-DFP_WORD_SIZE=4", "-DWORD_SIZE=4"], "clang")]
        bins = pmap(lambda j: (j[0], j[1], rt.build_driver(os.path.join(d, j[0]), src, j[2], cc=j[3])), jobs)
        shards(rep, shard, NCPU, (bins, 15 if tier() == "quick" else 300))
    return rep.finish()
