"""P01: stateful random histories of bit stream operations against a bit-array model."""
from vlib.common import *
from vlib import rt, rtgen
from vlib.bits import *

PAT_SIZES = [1, 3, 7, 8, 9, 13, 16, 17, 24, 31, 40, 80]


class Model:
    def __init__(self, cap, bits, pos):
        self.n = cap * 8
        self.a = bits
        self.pos = pos

    def put(self, bits):
        self.a = self.a[:self.pos] + bits + self.a[self.pos + len(bits):]
        self.pos += len(bits)

    def get(self, n):
        r = self.a[self.pos:self.pos + n]
        self.pos += n
        return r

    @property
    def room(self):
        return self.n - self.pos


def rbits(r, n):
    k = r.random()
    if k < .1:
        return "0" * n
    if k < .2:
        return "1" * n
    return ub(r.getrandbits(n), n) if n else ""


def gen_write(r, m, w):
    """-> (text, expectation or None when nothing fits)"""
    k = r.randrange(12)
    room = m.room
    if k == 0 and room >= 1:
        b = rbits(r, 1); m.put(b)
        return "BitStream_AppendBit " + b, "AppendBit"
    if k == 1 and room >= 1:
        m.put("1"); return "BitStream_AppendBitOne", "AppendBitOne"
    if k == 2 and room >= 1:
        m.put("0"); return "BitStream_AppendBitZero", "AppendBitZero"
    if k in (3, 4):
        n = min(room, r.choice([0, 1, 2, 5, 7, 8, 9, 15, 16, 17, 23, 31, 64, 100]))
        m.put("01"[k == 4] * n)
        return "BitStream_AppendNBit%s %d" % (("Zero", "One")[k == 4], n), "AppendNBit%d" % min(n, 18)
    if k == 5:
        n = min(room, r.choice([0, 1, 3, 7, 8, 9, 12, 16, 20, 33, 64, 129]))
        b = rbits(r, n); m.put(b)
        # unused low bits of the last source byte must not leak
        src = tobytes(b + rbits(r, -n % 8))
        return "BitStream_AppendBits %d %s" % (n, hx(src)), "AppendBits%d" % (n % 8)
    if k == 6 and room >= 8:
        b = rbits(r, 8); neg = r.randrange(2)
        m.put(b if not neg else "".join("10"[int(c)] for c in b))
        return "BitStream_AppendByte %d %d" % (uint(b), neg), "AppendByte"
    if k == 7:
        b = rbits(r, 8)
        if room < 8:
            return ("!", "BitStream_AppendByte0 %d" % uint(b)), "AppendByte0.refused"
        m.put(b)
        return "BitStream_AppendByte0 %d" % uint(b), "AppendByte0"
    if k == 8:
        n = r.randrange(1, 8)
        if room >= n:
            b = rbits(r, n); neg = r.randrange(2)
            m.put(b if not neg else "".join("10"[int(c)] for c in b))
            return "BitStream_AppendPartialByte %d %d %d" % (uint(b), n, neg), "AppendPartialByte%d.%d" % (n, neg)
    if k in (9, 10):
        n = r.choice([0, 1, 2, 3, 5, 8, 17])
        nm = ("BitStream_AppendByteArray", "BitStream_EncodeOctetString_no_length")[k == 10]
        b = rbits(r, n * 8)
        if n * 8 > room:
            return ("!", "%s %s" % (nm, tohex(b))), nm + ".refused"
        m.put(b)
        return "%s %s" % (nm, tohex(b)), nm + str(min(n, 3))
    if k == 11:
        n = min(room, r.randrange(0, w + 1))
        v = r.getrandbits(n) | (1 << (n - 1)) if n else 0
        if r.randrange(2):
            m.put(ub(v, n)); return "BitStream_EncodeNonNegativeInteger %d" % v, "EncNonNeg%d" % (n // 8)
        g = r.randrange(2)
        m.put(ub(v ^ ((1 << n) - 1), n) if g else ub(v, n))
        return "BitStream_EncodeNonNegativeIntegerNeg %d %d" % (v, g), "EncNonNegNeg%d.%d" % (n // 8, g)
    return None, None


def gen_read(r, m, w):
    k = r.randrange(9)
    p0 = m.pos
    def refused(op, what):
        return op, None, what + ".refused"
    if k == 0:
        if m.room < 1: return refused("BitStream_ReadBit", "ReadBit")
        return "BitStream_ReadBit", [m.get(1)], "ReadBit"
    if k == 1:
        v = m.a[m.pos] if m.room else "0"
        return "BitStream_PeekBit", [v], "PeekBit"
    if k == 2:
        if m.room < 8: return refused("BitStream_ReadByte", "ReadByte")
        return "BitStream_ReadByte", [str(uint(m.get(8)))], "ReadByte"
    if k == 3:
        n = r.randrange(1, 8)
        if m.room < n: return refused("BitStream_ReadPartialByte %d" % n, "ReadPartialByte")
        return "BitStream_ReadPartialByte %d" % n, [str(uint(m.get(n)))], "ReadPartialByte%d" % n
    if k == 4:
        n = r.choice([0, 1, 2, 7, 8, 9, 15, 16, 17, 40, 65])
        if m.room < n: return refused("BitStream_ReadBits %d" % n, "ReadBits")
        return "BitStream_ReadBits %d" % n, [tohex(m.get(n))], "ReadBits%d" % (n % 8)
    if k in (5, 6):
        n = r.choice([0, 1, 2, 3, 7, 12])
        nm = ("BitStream_ReadByteArray", "BitStream_DecodeOctetString_no_length")[k == 6]
        if m.room < n * 8: return refused("%s %d" % (nm, n), nm)
        return "%s %d" % (nm, n), [tohex(m.get(n * 8))], nm + str(min(n, 3))
    if k == 7:
        n = r.randrange(0, w + 1)
        if m.room < n: return refused("BitStream_DecodeNonNegativeInteger %d" % n, "DecNonNeg")
        return "BitStream_DecodeNonNegativeInteger %d" % n, [str(uint(m.get(n)))], "DecNonNeg%d" % (n // 8)
    # bit patterns
    n = r.choice(PAT_SIZES)
    if r.random() < .5 and m.room >= n:
        at = r.randrange(m.pos, min(m.n - n, m.pos + 40) + 1)
        pat = m.a[at:at + n]
    else:
        pat = rbits(r, n)
    if r.random() < .4:
        if m.room < n:
            return "BitStream_checkBitPatternPresent %d %s" % (n, tohex(pat)), ["0"], "checkPattern.short"
        if m.a[m.pos:m.pos + n] == pat:
            m.pos += n
            return "BitStream_checkBitPatternPresent %d %s" % (n, tohex(pat)), ["2"], "checkPattern.yes%d" % (n % 8)
        return "BitStream_checkBitPatternPresent %d %s" % (n, tohex(pat)), ["1"], "checkPattern.no"
    mx = r.choice([1, 4, 8, 17, 40])
    op = "BitStream_ReadBits_nullterminated %d %s %d" % (n, tohex(pat), mx)
    for i in range(mx + 1):
        q = m.pos + i
        if q + n > m.n:
            break
        if m.a[q:q + n] == pat:
            v = m.a[m.pos:q]
            m.pos = q + n
            return op, [str(i), tohex(v)], "ReadBits_nullterminated%d" % (n % 8)
    return op, None, "ReadBits_nullterminated.refused"


def history(r, w, report_classes):
    cap = r.choice([1, 1, 2, 3, 4, 5, 8, 9, 13, 16, 24, 40, 64])
    start = r.randrange(min(cap * 8, 17) + 1)
    if r.random() < .4:
        mode, init, hexs = "I", "0" * (cap * 8), "-"
    else:
        init = rbits(r, cap * 8); mode, hexs = "A", tohex(init)
    m = Model(cap, init, start)
    ops, exp = [], []
    nops = r.randrange(1, 25)
    phase_read = False
    refused = False
    for _ in range(nops):
        x = r.random()
        al = m.pos % 8
        if x < .12:
            p = r.randrange(m.n + 1)
            m.pos = p
            ops.append("setpos %d" % p); exp.append((m.pos, []))
            continue
        if x < .17:
            ops.append("getpos"); exp.append((m.pos, [str(m.pos)])); continue
        if x < .22:
            ops.append("BitStream_GetLength"); exp.append((m.pos, [str((m.pos + 7) // 8)])); continue
        if x < .6:
            t, cls = gen_write(r, m, w)
            if t is None:
                continue
            if isinstance(t, tuple):
                ops.append(t[1]); exp.append(None); report_classes.append(cls); refused = True
                break
            ops.append(t); exp.append((m.pos, []))
        else:
            t, vals, cls = gen_read(r, m, w)
            ops.append(t)
            if vals is None:
                exp.append(None); report_classes.append(cls); refused = True
                break
            exp.append((m.pos, vals))
        report_classes.append("%s@%d" % (cls, al))
    return "%s %d %s %d ; " % (mode, cap, hexs, start) + " ; ".join(ops), exp, m.a, ops, cap


def judge(rep, case, line, tag):
    text, exp, final, ops, cap = case
    if line.startswith("CRASH"):
        rep.violation("%s:crash:%s" % (tag, rt.crash_key(line)), "the runtime died: %s" % line, text)
        return
    got, buf = rt.parse(line)
    for i, e in enumerate(exp):
        name = ops[i].split()[0]
        if i >= len(got):
            rep.violation("%s:%s:refused" % (tag, name), "op %d (%s) not reached: %s" % (i, ops[i], line[-300:]), text)
            return
        ret, pos, vals = got[i]
        if e is None:
            if ret != 0:
                rep.violation("%s:%s:overrun-accepted" % (tag, name), "op %d (%s) needs more bits than the stream has but reports success: %s" % (i, ops[i], got[i]), text)
                return
            if pos > cap * 8:
                rep.violation("%s:%s:position-past-end" % (tag, name), "position %d > %d after a refused %s" % (pos, cap * 8, ops[i]), text)
            return
        if ret != 1:
            rep.violation("%s:%s:refused" % (tag, name), "op %d (%s) refused although it fits" % (i, ops[i]), text)
            return
        if pos != e[0]:
            rep.violation("%s:%s:position" % (tag, name), "op %d (%s): position %d, model %d" % (i, ops[i], pos, e[0]), text)
            return
        if vals != e[1]:
            rep.violation("%s:%s:value" % (tag, name), "op %d (%s): returned %s, model %s" % (i, ops[i], vals, e[1]), text)
            return
    if buf != tohex(final):
        rep.violation("%s:buffer:%s" % (tag, ops[-1].split()[0] if ops else "none"), "buffer %s, model %s" % (buf, tohex(final)), text)


def static_cases(rep, r, bins):
    """Comparison helpers of the bit stream: equality of bit/octet strings must ignore unused bits."""
    cases = []
    for _ in range(1500):
        n = r.randrange(0, 40)
        a = rbits(r, n)
        b = a
        same = True
        if r.random() < .5 and n:
            i = r.randrange(n); b = a[:i] + "10"[int(a[i])] + a[i + 1:]; same = False
        m2 = n
        if r.random() < .1:
            m2 = n + r.randrange(1, 9); b = b + rbits(r, m2 - n); same = False
        A = tobytes(a + rbits(r, -n % 8)); B = tobytes(b + rbits(r, -m2 % 8))
        cases.append(("A 1 00 0 ; BitString_equal %d %d %s %s" % (n, m2, hx(A), hx(B)), str(int(same))))
        if n % 8 == 0 and m2 % 8 == 0:
            cases.append(("A 1 00 0 ; OctetString_equal %d %d %s %s" % (n // 8, m2 // 8, hx(A), hx(B)), str(int(same))))
    for tag, b in bins.items():
        for (t, e), line in zip(cases, rt.run_lines(b, [c[0] for c in cases])):
            name = t.split()[5]
            if line.startswith("CRASH"):
                rep.violation("%s:%s:%s" % (tag, name, rt.crash_key(line)), line, t); continue
            got, _ = rt.parse(line)
            if got[0][2] != [e]:
                rep.violation("%s:%s:value" % (tag, name), "expected %s got %s" % (e, got), t)
            rep.ok(name + e)


def shard(rep, r, idx, bins, budget):
    t0 = time.time()
    while time.time() - t0 < budget:
        for tag, b in bins.items():
            w = 32 if "4" in tag else 64
            cases, cl = [], []
            for _ in range(1500):
                cases.append(history(r, w, cl))
            for c, line in zip(cases, rt.run_lines(b, [c[0] for c in cases])):
                judge(rep, c, line, tag)
                rep.count("histories"); rep.count("operations", len(c[1]))
            for k in cl:
                rep.ok(k)
            if len(rep.samples) < 3:
                rep.samples.append(cases[0][0][:300])


def main(rep):
    rep.rule = "distinct (operation, size class, start alignment) observed and compared with the bit-array model, plus refusals at the end of the buffer"
    rep.assumptions = ["void appends (no result) are only issued when they fit: capacity is their documented precondition (assert)",
                       "the value left in a destination after a refused read is not judged"]
    with Scratch("p01") as d:
        src = rtgen.source()
        bins = {}
        jobs = [("w8", [], "gcc"), ("w4", ["-DWORD_SIZE=4"], "gcc"), ("w8ndebug", ["-DNDEBUG"], "clang")]
        for (t, f, cc), b in zip(jobs, pmap(lambda j: rt.build_driver(os.path.join(d, j[0]), src, j[1], cc=j[2], opt="-O2" if j[2] == "clang" else "-O1"), jobs)):
            bins[t] = b
        static_cases(rep, random.Random(seed()), bins)
        shards(rep, shard, NCPU, (bins, 12 if tier() == "quick" else 240))
    return rep.finish()
