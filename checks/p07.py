"""P07: BER primitives of the C runtime against X.690."""
import math, struct
from vlib.common import *
from vlib import rt


def tag_bytes(t):
    n = max(1, (t.bit_length() + 7) // 8)
    return t.to_bytes(n, "big")


def length_bytes(n):
    """definite form in the fewest octets (what the encoders emit; 8.1.3)"""
    if n < 128:
        return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([0x80 | len(b)]) + b


def int_bytes(v):
    n = ((v if v >= 0 else -v - 1).bit_length() + 8) // 8
    return v.to_bytes(n, "big", signed=True)


def real_value(c):
    """value of REAL contents octets (8.5), None when malformed or not modelled"""
    if not c:
        return 0.0
    h = c[0]
    if h & 0x80:
        base = (2, 8, 16, None)[h >> 4 & 3]
        f, k = h >> 2 & 3, h & 3
        if base is None:
            return None
        i = 1
        if k == 3:
            if len(c) < 2:
                return None
            n = c[1]; i = 2
        else:
            n = k + 1
        if n == 0 or len(c) < i + n + 1:
            return None
        e = int.from_bytes(c[i:i + n], "big", signed=True)
        m = int.from_bytes(c[i + n:], "big") << f
        e *= {2: 1, 8: 3, 16: 4}[base]
        try:
            x = math.ldexp(m, e)
        except OverflowError:
            return None
        return -x if h & 0x40 else x
    if len(c) == 1:
        return {0x40: math.inf, 0x41: -math.inf, 0x42: math.nan, 0x43: -0.0}.get(h)
    return None


def f2b(x):
    return struct.unpack(">Q", struct.pack(">d", x))[0]


def b2f(b):
    return struct.unpack(">d", struct.pack(">Q", b))[0]


def rtag(r):
    x = r.random()
    if x < .5:
        return r.choice([0x01, 0x02, 0x03, 0x04, 0x05, 0x09, 0x16, 0x30, 0x80, 0x85, 0xA0, 0x9E, 0x5E, 0xC3])
    if x < .8:
        return (r.choice([0x1f, 0x5f, 0x9f, 0xbf, 0xdf]) << 8) | r.randrange(0x1f, 0x80)
    return (r.choice([0x1f, 0x9f, 0xbf]) << 16) | r.randrange(0x81, 0x100) << 8 | r.randrange(0x80)


def rval(r, k, w):
    """a value -> (token text, contents octets or None when only their meaning is prescribed, value for decoding)"""
    if k == "i":
        b = r.choice([0, 1, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 39, 40, 47, 48, 55, 56, 62, 63])
        b = min(b, w - 1)
        v = r.choice([1 << b, (1 << b) - 1, -(1 << b), -(1 << b) - 1, r.randrange(-(1 << b), 1 << b)])
        v = max(-(1 << (w - 1)), min((1 << (w - 1)) - 1, v))
        return str(v), int_bytes(v), v
    if k == "b":
        v = r.randrange(2)
        return str(v), b"\xff" if v else b"\0", v
    if k == "n":
        return "-", b"", None
    if k == "r":
        x = r.choice([0.0, -0.0, 1.0, -1.5, 0.1, 1e300, 5e-324, 2.2250738585072014e-308, math.inf, -math.inf, math.nan, 3.0, float(r.randrange(1 << 53)), b2f(r.getrandbits(64)), r.uniform(-1e6, 1e6)])
        return "%x" % f2b(x), None, x
    n = r.choice([0, 1, 2, 7, 8, 20, 125, 126, 127, 128, 129, 254, 255, 256, 257, 300, 1000]) if r.random() < .5 else r.randrange(40)
    if k == "B":
        bits = r.choice([n, 8 * n, 8 * n + r.randrange(8)])
        d = bytearray(r.randbytes((bits + 7) // 8))
        if bits % 8:
            d[-1] &= 0xff00 >> bits % 8 & 0xff
        return "%s %d" % (d.hex() or "-", bits), bytes([-bits % 8]) + bytes(d), (bits, bytes(d))
    d = r.randbytes(n) if k == "o" else bytes(r.randrange(1, 128) for _ in range(n))
    return d.hex() or "-", d, d


def parse_length(b, p):
    """-> (length or -1 indefinite or None, position after)"""
    if p >= len(b):
        return None, p
    h = b[p]; p += 1
    if h < 0x80:
        return h, p
    if h == 0x80:
        return -1, p
    n = h & 0x7f
    if p + n > len(b):
        return None, p
    v = int.from_bytes(b[p:p + n], "big")
    return (None if v > 0x7fffffff else v), p + n


def tag_matches(b, t):
    tb = tag_bytes(t)
    if len(b) < len(tb):
        return False
    # the constructed bit of the first octet is not compared
    return bytes([b[0] & 0xdf]) + b[1:len(tb)] == bytes([tb[0] & 0xdf]) + tb[1:]


def want(k, t, b, mx, w):
    """reference decoding -> None (must fail) or (position, value, strict): strict False when refusing is allowed as well"""
    if k in "lzZ":
        if k == "l":
            v, p = parse_length(b, 0)
            return None if v is None else (p, str(v), True)
        return ((2 if k == "z" else 0), "-", True) if b[:2] == b"\0\0" else None
    if not tag_matches(b, t):
        return None
    p = len(tag_bytes(t))
    if k == "m":
        return 0, "-", True
    if k == "t":
        return p, "-", True
    n, p = parse_length(b, p)
    if n is None or n < 0 or p + n > len(b):
        return None
    c, p = b[p:p + n], p + n
    if k == "i":
        if n == 0:
            return None
        v = int.from_bytes(c, "big", signed=True)
        if not -(1 << (w - 1)) <= v < 1 << (w - 1):
            return None
        return p, str(v), len(int_bytes(v)) == n
    if k == "b":
        return None if n != 1 else (p, str(int(c[0] != 0)), True)
    if k == "n":
        return None if n else (p, "-", True)
    if k == "s":
        return p, c[:mx].ljust(mx, b"\0").hex() or "-", n <= mx
    if k == "o":
        m = min(n, mx)
        return p, "%d %s" % (m, c[:m].hex() or "-"), n <= mx
    if k == "B":
        if n < 1 or c[0] > 7 or n == 1 and c[0]:
            return None
        bits = 8 * (n - 1) - c[0]
        if bits > mx:
            return p, None, False
        return p, "%d %s" % (bits, c[1:].hex() or "-"), True
    if k == "r":
        return p, None, False
    raise ValueError(k)


KINDS = "ibnrsoB"


def maxlen(r, k, v):
    if k == "B":
        return v[0] + r.choice([0, 0, 1, 7, 8, 40])
    if k in "so":
        return len(v) + r.choice([0, 0, 1, 5, 40])
    return 0


def shard(rep, r, idx, bins, budget):
    t0 = time.time()
    while time.time() - t0 < budget:
        for cfg, w, b in bins:
            batch(rep, r, cfg, w, b)


def batch(rep, r, cfg, w, binary):
    kinds = KINDS.replace("r", "") if w == 32 else KINDS
    L, M = [], []
    for _ in range(400):
        k = r.choice(kinds); t = rtag(r)
        if w == 32 and t > 0xffffffff:
            continue
        txt, c, v = rval(r, k, w)
        if c is None:
            n = None
            cap = r.choice([40, 40, 16])
            full = None
        else:
            full = tag_bytes(t) + length_bytes(len(c)) + c
            cap = len(full) + r.choice([0, 0, 0, 1, 9]) if r.random() < .6 else r.randrange(len(full))
        L.append("E %s %x %d %s" % (k, t, cap, txt)); M.append((k, t, cap, c, v, full))
    outs = rt.run_lines(binary, L)
    D, DM, seeds = [], [], {}
    for l, o, (k, t, cap, c, v, full) in zip(L, outs, M):
        key = "%s:enc:%s:" % (cfg, k)
        if o.startswith("CRASH"):
            rep.violation(key + rt.crash_key(o), o, l); continue
        m = re.match(r"e(\d) (-?\d+) (\d+) (\S+)$", o)
        if not m:
            raise CheckError("driver answered %r to %r" % (o[:200], l[:200]))
        ok, err, pos, hx = m.group(1) == "1", int(m.group(2)), int(m.group(3)), m.group(4)
        out = b"" if hx == "-" else bytes.fromhex(hx)
        if full is not None and ok != (cap >= len(full)):
            rep.violation(key + "verdict", "capacity %d, %d octets needed: %s" % (cap, len(full), o[:200]), l); continue
        if not ok:
            if err == 0:
                rep.violation(key + "error-code", "failed with error code 0", l); continue
            rep.ok((cfg, "enc", k, "refused", len(tag_bytes(t)))); rep.count("encodings_refused"); continue
        if pos > cap:
            rep.violation(key + "position", "position %d beyond the capacity %d" % (pos, cap), l); continue
        if full is None:
            tb = tag_bytes(t)
            n, p = parse_length(out, len(tb))
            x = real_value(out[p:]) if n is not None and n == len(out) - p and out[:len(tb)] == tb else None
            if x is None or f2b(x) != f2b(v) and not (x != x and v != v):
                rep.violation(key + "bytes", "REAL %r encoded as %s" % (v, hx), l); continue
            full = out
        elif out != full:
            rep.violation(key + "bytes", "got %s, X.690 says %s" % (hx[:200], full.hex()[:200]), l); continue
        rep.ok((cfg, "enc", k, "done", len(tag_bytes(t)), len(full).bit_length())); rep.count("encodings")
        seeds.setdefault(k, []).append((t, full, v))
        mx = maxlen(r, k, v)
        tail = r.randbytes(r.choice([0, 0, 1, 5]))
        D.append("D %s %x %s %d" % (k, t, (full + tail).hex(), mx)); DM.append((k, t, full + tail, mx, "valid", v))
        if len(full) > 1:
            cut = r.randrange(len(full))
            D.append("D %s %x %s %d" % (k, t, full[:cut].hex() or "-", mx)); DM.append((k, t, full[:cut], mx, "cut", v))
    for _ in range(1200):
        k = r.choice(kinds + "tmlzZ")
        t = rtag(r)
        if k in seeds and r.random() < .8:
            t, full, v = r.choice(seeds[k])
            x = bytearray(full)
            y = r.random()
            p = len(tag_bytes(t))
            if y < .45 and len(x) > p:
                n, e = parse_length(full, p)       # another length form in place of the given one
                x[p:e] = r.choice([bytes([0x80]), bytes([0x81, r.randrange(256)]), b"\x82" + r.randbytes(2), b"\x84\xff\xff\xff\xff", b"\x84\x7f\xff\xff\xff", b"\x84\x80\0\0\0", b"\x85\x01\0\0\0" + bytes([n & 255]),
                                   b"\x88" + r.randbytes(8), b"\xff", bytes([r.randrange(128)]), b"\x83\0" + (n & 0xffff).to_bytes(2, "big"), b"\x81" + bytes([n & 255]), b"\0"])
            elif y < .7:
                for _ in range(r.choice([1, 1, 3])):
                    x[r.randrange(min(len(x), 12))] = r.randrange(256)
            elif y < .85:
                x[0] ^= r.choice([0x20, 0x40, 0x80, 0x01])
            if r.random() < .3:
                x = x[:r.randrange(len(x) + 1)]
            if r.random() < .2:
                x += r.randbytes(r.choice([1, 9, 200]))
            data = bytes(x)
            mx = r.choice([maxlen(r, k, v), r.randrange(12), 300])
        else:
            data = r.randbytes(r.choice([0, 1, 2, 3, 5, 8, 20]))
            if k in "lzZ" and r.random() < .6:
                data = r.choice([b"\0\0", b"\0", b"\0\1", b"\1\0", b"\x80", b"\x7f", b"\x81\x80", b"\x84\xff\xff\xff\xff", b"\x84\x7f\xff\xff\xff", b"\x82\1\0", b"\x82\1", b"\x85\0\0\0\0\1", b"\xff"]) + data
            if k in "tm" and r.random() < .7:
                data = tag_bytes(t ^ r.choice([0, 0, 0x20, 1, 0x40]))[:r.randrange(1, 4)] + data
            mx = r.randrange(12)
        D.append("D %s %x %s %d" % (k, t, data.hex() or "-", mx)); DM.append((k, t, data, mx, "hostile", None))
    for l, o, (k, t, data, mx, how, v) in zip(D, rt.run_lines(binary, D), DM):
        key = "%s:dec:%s:%s:" % (cfg, k, how)
        if o.startswith("CRASH"):
            rep.violation(key + rt.crash_key(o), o, l); continue
        m = re.match(r"d(\d) (-?\d+) (-?\d+) (.*)$", o)
        if not m:
            raise CheckError("driver answered %r to %r" % (o[:200], l[:200]))
        ok, err, pos, val = m.group(1) == "1", int(m.group(2)), int(m.group(3)), m.group(4)
        if not 0 <= pos <= len(data):
            rep.violation(key + "position", "position %d in %d octets" % (pos, len(data)), l); continue
        e = want(k, t, data, mx, w)
        if not ok:
            if k not in "mZ" and err == 0:
                rep.violation(key + "error-code", "failed with error code 0", l); continue
            if e is not None and e[2] or how == "valid":
                rep.violation(key + "refused", "valid octets refused: %s (expected %r)" % (o[:200], e), l); continue
            rep.ok((cfg, "dec", k, how, "refused")); rep.count("inputs_refused"); continue
        if e is None:
            rep.violation(key + "accepted", "malformed or incomplete octets accepted: " + o[:200], l); continue
        if pos != e[0]:
            rep.violation(key + "consumed", "%d octets consumed, %d expected" % (pos, e[0]), l); continue
        if k == "r":
            got = b2f(int(val, 16))
            tb = len(tag_bytes(t)); n, p = parse_length(data, tb)
            x = v if how == "valid" else real_value(data[p:p + n])
            if x is not None and not (x != x and got != got) and (f2b(x) != f2b(got) if how == "valid" else x != got and n <= 10 and abs(x) > 2.3e-308):
                rep.violation(key + "value", "decoded %r, the octets say %r" % (got, x), l); continue
        elif k == "B" and e[1] is None:
            if not 0 <= int(val.split()[0]) <= mx:
                rep.violation(key + "count", "count %s beyond the capacity %d" % (val.split()[0], mx), l); continue
        elif val != e[1]:
            rep.violation(key + "value", "decoded %s, expected %s" % (val[:200], e[1][:200]), l); continue
        rep.ok((cfg, "dec", k, how, "accepted", len(data).bit_length())); rep.count("inputs_accepted")
    if len(rep.samples) < 3:
        rep.samples += [L[0][:200], D[-1][:200]]


def main(rep):
    rep.rule = "distinct (configuration, operation, primitive, kind of input, verdict, size class) compared with the X.690 model, in buffers of exactly the advertised size"
    rep.assumptions = ["the constructed bit of a tag is not compared by the decoders (tag matching covers both forms)", "strings longer than the destination may be refused or cut; the count must stay within the destination", "integers with redundant leading octets and REAL forms other than the emitted ones may be refused"]
    with Scratch("p07") as d:
        src = open(os.path.join(VERIF, "harness", "c", "ber_driver.c")).read()
        ex = [os.path.join(REPO, "asn1crt", "asn1crt_encoding_ber.c")]
        jobs = [("w8", 64, [], "gcc", "-O1"), ("w4", 32, ["-DWORD_SIZE=4"], "gcc", "-O1"), ("w8n", 64, ["-DNDEBUG"], "clang", "-O2")]
        bins = pmap(lambda j: (j[0], j[1], rt.build_driver(os.path.join(d, j[0]), src, j[2], cc=j[3], opt=j[4], extra=ex)), jobs)
        shards(rep, shard, NCPU, (bins, 12 if tier() == "quick" else 300))
    return rep.finish()
