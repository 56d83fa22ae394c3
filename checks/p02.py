"""P02: uPER primitive codecs of the C runtime against an X.691 model."""
from vlib.common import *
from vlib import rt, rtgen, codecs, fieldcheck

FAMS = ["uper.constrained.s", "uper.constrained.u", "uper.semi.s", "uper.semi.u", "uper.unconstrained", "uper.bool",
        "uper.octets", "uper.octets.fragmented", "uper.bits", "uper.ObjectIdentifier", "uper.RelativeOID"]
STR = ["uper.octets", "uper.octets.fragmented", "uper.bits"]


def shard(rep, r, idx, bins, budget):
    t0 = time.time()
    big = True
    while time.time() - t0 < budget:
        for tag, w, b in bins:
            codecs.BIG[0] = 0.0
            fieldcheck.batch(rep, r, b, w, FAMS, tag, 1500)
        # fragmented sizes: few, because the lines are long
        if idx % 2 == 0 or tier() != "quick":
            codecs.BIG[0] = 1.0
            tag, w, b = r.choice(bins)
            fieldcheck.batch(rep, r, b, w, STR, tag + ".big", 10, kinds=("enc", "dec", "trunc"))


def helpers(rep, r, bins):
    """integer size helpers and search helpers the codecs are built on"""
    from vlib.codecs import ru, rs
    for tag, w, b in bins:
        L, E = [], []
        for _ in range(1500):
            u = ru(r, w); s = rs(r, w)
            L.append("I 1 - 0 ; GetNumberOfBitsForNonNegativeInteger %d ; GetLengthInBytesOfUInt %d ; GetLengthInBytesOfSInt %d" % (u, u, s))
            E.append([str(u.bit_length()), str(max(1, (u.bit_length() + 7) // 8)), str(((s if s >= 0 else -s - 1).bit_length() + 8) // 8)])
        for _ in range(700):
            n = r.randrange(1, 20)
            a = sorted(set(rs(r, r.choice([8, w])) for _ in range(n)))
            x = r.choice(a) if r.randrange(2) else rs(r, r.choice([8, w]))
            e = str(a.index(x)) if x in a else "-1"
            L.append("I 1 - 0 ; binarySearch %d %d %s ; linearSearch %d %d %s" % (x, len(a), " ".join(map(str, a)), x, len(a), " ".join(map(str, a))))
            E.append([e, e])
        for l, e, o in zip(L, E, rt.run_lines(b, L)):
            if o.startswith("CRASH"):
                rep.violation("%s:helper:%s" % (tag, rt.crash_key(o)), o, l)
                continue
            got = [g[2][0] for g in rt.parse(o)[0]]
            if got != e:
                rep.violation("%s:helper:%s" % (tag, l.split()[5]), "%s: got %s expected %s" % (l, got, e), l)
            rep.ok((tag, "helper", tuple(len(x) for x in e)))


def main(rep):
    rep.rule = "distinct (configuration, codec family, value class, operation, bit alignment) whose bits, position and decoded value were compared with the X.691 model"
    rep.assumptions = ["object identifiers: first arc 0..2 and second arc 0..39, the profile of ObjectIdentifier_isValid",
                       "whether a decoder tolerates a non minimal length of an unconstrained or semi-constrained integer is not judged"]
    with Scratch("p02") as d:
        src = rtgen.source()
        jobs = [("w8", 64, [], "gcc", "-O1"), ("w4", 32, ["-DWORD_SIZE=4"], "gcc", "-O1"), ("w8n", 64, ["-DNDEBUG"], "clang", "-O2")]
        bins = pmap(lambda j: (j[0], j[1], rt.build_driver(os.path.join(d, j[0]), src, j[2], cc=j[3], opt=j[4])), jobs)
        helpers(rep, random.Random(seed()), bins)
        shards(rep, shard, NCPU, (bins, 15 if tier() == "quick" else 300))
    return rep.finish()
