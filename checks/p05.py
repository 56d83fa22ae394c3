"""P05: every decoding routine of the C runtime on arbitrary, truncated and damaged bytes."""
from vlib.common import *
from vlib.bits import *
from vlib import rt, rtgen, codecs, fieldcheck

EXTRA = [("BitStream_DecodeReal", None), ("BitStream_DecodeReal_fp32", None), ("BitStream_ReadBits_nullterminated", "nt"), ("BitStream_DecodeNonNegativeInteger", "n"),
         ("Acn_AlignToNextByte 0", ""), ("Acn_AlignToNextWord 0", ""), ("Acn_AlignToNextDWord 0", "")]


def decop(r, w):
    """a decode operation with legal arguments and bits that are meant for it"""
    k = r.random()
    if k < .12:
        n, a = r.choice(EXTRA)
        if a == "nt":
            m = r.choice([1, 3, 8, 11, 16])
            t = codecs.rb(r, m)
            return "%s %d %s %d" % (n, m, tohex(t), r.choice([0, 1, 8, 30, 100])), codecs.rb(r, r.randrange(40)) + t
        if a == "n":
            m = r.randrange(w + 1)
            return "%s %d" % (n, m), codecs.rb(r, m)
        return n, ub(r.choice([0, 1, 3, 9, 127, 255]), 8) + ub(r.choice([0, 0x40, 0x43, 0x80, 0x83, 0x93, 0xC2, 0xFF]), 8) + codecs.rb(r, 8 * r.randrange(30))
    if k < .3:
        while True:
            x = codecs.BAD[r.choice(sorted(codecs.BAD))](r, w)
            if x:
                return x[0], x[1]
    c = codecs.GEN[r.choice(sorted(codecs.GEN))](r, w)
    return r.choice(c.decs)[0], c.bits


def fragments(r):
    """general length form: any sequence of fragment headers and a tail, for a receiver whose maximum may be smaller"""
    unit, op = r.choice([(1, "BitStream_DecodeBitString %d %d"), (1, "BitStream_DecodeBitString %d %d"), (8, "BitStream_DecodeOctetString %d %d"), (8, "BitStream_DecodeOctetString_fragmentation")])
    ks = r.choice([[4, 4], [4, 1], [1, 4], [4, 4, 4], [3, 2], [1, 1, 1, 1], [2, 3], [1, 4, 4], [4], [3], [1, 2], [4, 4, 1]])
    tail = r.choice([0, 1, 127, 128, 200, 4463, 4464, 4465, 16383])
    total = sum(ks) * 0x4000 + tail
    first = sum(ks[:r.randrange(len(ks) + 1)]) * 0x4000
    hi = max(65536, r.choice([65536, 70000, total - 1, total, total + 1, first, first + 1, total - tail]))
    lo = r.choice([0, 0, 1, hi])
    b = "".join("11" + ub(k, 6) + codecs.rb(r, k * 0x4000 * unit) for k in ks)
    b += (ub(tail, 8) if tail < 128 else "10" + ub(tail, 14)) + codecs.rb(r, tail * unit)
    return (op + " %d" % hi if op.endswith("tion") else op % (lo, hi)), b


def damage(r, b):
    k = r.randrange(8)
    if k == 0:
        return codecs.rb(r, r.choice([0, 1, 7, 8, 9, 16, 40, 100, 300])), "random"
    if k == 1:
        return "1" * r.randrange(200), "ones"
    if k == 2:
        return "0" * r.randrange(200), "zeros"
    if k == 3:
        return b[:r.randrange(len(b) + 1)], "cut"
    if k == 4:
        return b + codecs.rb(r, r.randrange(64)), "longer"
    if k == 5 and b:
        i = r.randrange(len(b))
        return b[:i] + codecs.rb(r, r.randrange(1, 9)) + b[i:], "inserted"
    for _ in range(r.randrange(1, 5)):
        if b:
            i = r.choice([r.randrange(len(b)), r.randrange(min(len(b), 16))])
            b = b[:i] + "10"[int(b[i])] + b[i + 1:]
    return b, "flipped"


def shard(rep, r, idx, bins, budget):
    t0 = time.time()
    while time.time() - t0 < budget:
        for tag, w, b in bins:
            L, M = [], []
            for _ in range(900):
                big = r.random() < .008
                op, bits = fragments(r) if big else decop(r, w)
                op2 = decop(r, w)[0] if r.randrange(3) == 0 else None
                bits, how = (bits, "fragments") if big and r.random() < .8 else damage(r, bits)
                start = r.randrange(8)
                cap = max(1, (start + len(bits) + 7) // 8)
                if len(bits) == 0:
                    start = 8
                pad = codecs.rb(r, cap * 8 - len(bits) - start) if start < 8 else ""
                body = codecs.rb(r, start) + bits + pad
                more = codecs.rb(r, 8 * r.choice([1, 4, 40]))
                tail = " ; " + op + ("" if op2 is None else " ; " + op2)
                L.append("A %d %s %d%s" % (len(body) // 8, tohex(body), start, tail))
                L.append("A %d %s %d%s" % ((len(body) + len(more)) // 8, tohex(body + more), start, tail))
                M.append((op, how, len(body)))
            out = rt.run_lines(b, L)
            for i, (op, how, n) in enumerate(M):
                nm = fieldcheck.opname(op)
                bad = False
                for l, o in ((L[2 * i], out[2 * i]), (L[2 * i + 1], out[2 * i + 1])):
                    if o.startswith("CRASH"):
                        rep.violation("%s:crash:%s" % (tag, rt.crash_key(o)), "%s on %s input: %s" % (nm, how, o), l)
                        bad = True
                if bad:
                    continue
                g1, b1 = rt.parse(out[2 * i])
                g2, b2 = rt.parse(out[2 * i + 1])
                rep.ok((tag, nm, how, g1[0][0])); rep.count("accepted" if g1[0][0] else "refused")
                if b1 != L[2 * i].split()[2]:
                    rep.violation("%s:%s:input-modified" % (tag, nm), "decoding changed its input to %s" % b1, L[2 * i])
                for j, (x, y) in enumerate(zip(g1, g2)):
                    if x[1] > n or x[1] < 0:
                        rep.violation("%s:%s:position" % (tag, nm), "position %d, the stream has %d bits" % (x[1], n), L[2 * i])
                        break
                    if (op, L[2 * i].split(" ; ")[-1])[j].startswith("Acn_Align"):
                        break          # void: stops at the end of the stream
                    if x[0] and x != y:
                        rep.violation("%s:%s:depends-on-data-past-the-end" % (tag, nm), "%s, but with more data after it %s" % (x, y), L[2 * i] + "\n" + L[2 * i + 1])
                        break
                    if not x[0] and y[0] and y[1] <= n:
                        rep.violation("%s:%s:refused-complete" % (tag, nm), "refused although the needed %d of %d bits are there: %s" % (y[1], n, y), L[2 * i] + "\n" + L[2 * i + 1])
                        break
                    if not x[0]:
                        break
            if len(rep.samples) < 4:
                rep.samples += [x[:200] for x in L[:2]]


def main(rep):
    rep.rule = "distinct (configuration, decoding routine, kind of damage, verdict); each input also decoded with more data behind it, as an oracle for reads past the end"
    rep.assumptions = ["routines are called with bounds, sizes and patterns a generated decoder can pass (min <= max, capacity >= max)"]
    with Scratch("p05") as d:
        src = rtgen.source()
        jobs = [("w8", 64, [], "gcc", "-O1"), ("w4", 32, ["-DWORD_SIZE=4"], "gcc", "-O1"), ("w8n", 64, ["-DNDEBUG"], "clang", "-O2"), ("f4", 64, ["-DFP_WORD_SIZE=4", "-DNDEBUG"], "gcc", "-O1")]
        bins = pmap(lambda j: (j[0], j[1], rt.build_driver(os.path.join(d, j[0]), src, j[2], cc=j[3], opt=j[4])), jobs)
        shards(rep, shard, NCPU, (bins, 20 if tier() == "quick" else 300))
    return rep.finish()
