"""P03: ACN primitive codecs of the C runtime against a model of the ACN manual's layouts."""
from vlib.common import *
from vlib.bits import *
from vlib import rt, rtgen, codecs, fieldcheck

FAMS = [f for f in codecs.GEN if f.startswith("acn.")] + ["acn.ascii.u.bad", "acn.ascii.s.bad"]
GENF = [f for f in FAMS if f in codecs.GEN]


def s_align(r, w):
    """alignment between two fields: zero padding up to the next byte, word or double word of the stream"""
    unit, nm = r.choice([(8, "Byte"), (16, "Word"), (32, "DWord")])
    start = r.randrange(64)
    n = r.randrange(1, 20)
    v = codecs.rb(r, n)
    pad = -start % unit
    end = start + pad + n
    cap = (end + 7) // 8 + r.choice([0, 0, 1, 2])
    mode = r.choice("IA")
    init = "0" * (cap * 8) if mode == "I" else codecs.rb(r, cap * 8)
    s = fieldcheck.Script(mode, cap, init, start, "align")
    s.ops = [("Acn_AlignToNext%s 1" % nm, start + pad, []), ("BitStream_AppendBits %d %s" % (n, tohex(v)), end, []),
             ("setpos %d" % start, start, []), ("Acn_AlignToNext%s 0" % nm, start + pad, []), ("BitStream_ReadBits %d" % n, end, [tohex(v)])]
    s.final = init[:start] + "0" * pad + v + init[end:]
    s.cls = [("align", nm, start % unit)]
    return s


DET = {"U8": (8, 0, 0), "U16_BE": (16, 0, 0), "U32_BE": (32, 0, 0), "U64_BE": (64, 0, 0), "U16_LE": (16, 0, 1), "U32_LE": (32, 0, 1),
       "U64_LE": (64, 0, 1), "I8": (8, 1, 0), "I16_BE": (16, 1, 0), "I32_BE": (32, 1, 0), "I64_BE": (64, 1, 0), "BOOL1": (1, 0, 0)}


def s_det(r, w):
    """reserve a determinant, write other fields, patch the determinant; a second patch must agree with the first"""
    k = r.choice(sorted(DET) + ["ConstSize", "TwosComplement_ConstSize", "IA5String_FixSize"])
    start = r.randrange(24)
    nb = ""
    if k in DET:
        n, sg, le = DET[k]
    elif k == "IA5String_FixSize":
        n, sg, le = 7 * r.randrange(1, 9), 0, 0
        nb = " %d" % (n // 7)
    else:
        n, sg, le = r.randrange(1, w + 1), int(k.startswith("Two")), 0
        nb = " %d" % n
    if k == "IA5String_FixSize":
        def val():
            x = codecs.rstr(r, n // 7, codecs.ALL)
            return x.hex(), "".join(ub(c, 7) for c in x)
    else:
        def val():
            x = codecs.rs(r, min(n, w)) if sg else codecs.ru(r, min(n, w))
            b = sb(x, n)
            return str(x), swap(b) if le else b
    (v1, b1), (v2, b2) = val(), val()
    gap = codecs.rb(r, r.randrange(0, 20))
    end = start + n + len(gap)
    cap = (end + 7) // 8 + r.choice([0, 1])
    init = codecs.rb(r, cap * 8)
    s = fieldcheck.Script("A", cap, init, start, "det")
    s.ops = [("Acn_InitDet_%s 3%s" % (k, nb), start + n, [])]
    if gap:
        s.ops.append(("BitStream_AppendBits %d %s" % (len(gap), tohex(gap)), end, []))
    s.ops.append(("Acn_PatchDet_%s 3%s %s" % (k, nb, v1), end, ["0"]))
    if r.randrange(2):
        s.ops.append(("Acn_PatchDet_%s 3%s %s" % (k, nb, v1), end, ["0"]))
    if r.randrange(2) and b1 != b2:
        s.ops.append(("Acn_PatchDet_%s 3%s %s" % (k, nb, v2), None, None))
    s.final = init[:start] + b1 + gap + init[end:]
    s.cls = [("det", k, start % 8, len(s.ops))]
    return s


def extra(rep, r, b, w, tag, n):
    ss = [s_align(r, w) if r.randrange(3) == 0 else s_det(r, w) for _ in range(n)]
    for s, line in zip(ss, rt.run_lines(b, [s.line() for s in ss])):
        fieldcheck.judge(rep, s, line, tag)
        rep.count("scripts_" + s.kind)
        for c in s.cls:
            rep.ok((tag,) + c)


def misc(rep, r, bins):
    for tag, w, b in bins:
        L, E = [], []
        for v in range(-2, 70):
            L.append("I 1 - 0 ; milbus_encode %d ; milbus_decode %d" % (v, v))
            E.append([str(0 if v == 32 else v), str(32 if v == 0 else v)])
        for _ in range(500):
            a = r.randrange(200); c = a + r.randrange(200)
            c8 = a + 8 * r.randrange(20)
            L.append("I 1 - 0 ; Acn_BitStream_DistanceInBits %d %d ; Acn_BitStream_DistanceInBytes %d %d" % (a, c, a, c8))
            E.append([str(c - a), str((c8 - a) // 8)])
        for l, e, o in zip(L, E, rt.run_lines(b, L)):
            if o.startswith("CRASH"):
                rep.violation("%s:misc:%s" % (tag, rt.crash_key(o)), o, l)
                continue
            got = [g[2][0] for g in rt.parse(o)[0]]
            if got != e:
                rep.violation("%s:misc:%s" % (tag, l.split()[5]), "%s: got %s expected %s" % (l, got, e), l)
            rep.ok((tag, "misc", l.split()[5]))


def shard(rep, r, idx, bins, budget):
    t0 = time.time()
    while time.time() - t0 < budget:
        for tag, w, b in bins:
            fieldcheck.batch(rep, r, b, w, GENF, tag, 1200)
            badf = [f for f in codecs.BAD if f.startswith("acn.")]
            fieldcheck.batch(rep, r, b, w, badf, tag, 300, kinds=("bad",))
            extra(rep, r, b, w, tag, 400)


def main(rep):
    rep.rule = "distinct (configuration, codec family, value class, operation, bit alignment) whose bits, position and decoded value were compared with the model of the ACN layouts"
    rep.assumptions = ["values handed to an encoder fit its field (documented precondition)", "terminator patterns up to 10 octets, the limit of the runtime"]
    with Scratch("p03") as d:
        src = rtgen.source()
        jobs = [("w8", 64, [], "gcc", "-O1"), ("w4", 32, ["-DWORD_SIZE=4"], "gcc", "-O1"), ("w8n", 64, ["-DNDEBUG"], "clang", "-O2")]
        bins = pmap(lambda j: (j[0], j[1], rt.build_driver(os.path.join(d, j[0]), src, j[2], cc=j[3], opt=j[4])), jobs)
        misc(rep, random.Random(seed()), bins)
        shards(rep, shard, NCPU, (bins, 20 if tier() == "quick" else 300))
    return rep.finish()
