"""P18: the advertised maximum sizes bound every encoding and are reached."""
import xml.etree.ElementTree as ET
from vlib.common import *
from vlib import rt
from vlib.gen.campaign import *
from vlib.gen.model import *
from vlib.gen import acn
from checks.p10 import enc_fields

OPTS = BASE_OPTS + ["-ACN", "-x", "ast.xml"]


def header_sizes(d):
    out = {}
    for f in os.listdir(d):
        if f.endswith(".h"):
            for m in re.finditer(r"#define\s+(\w+)_REQUIRED_(BITS|BYTES)_FOR_(ACN_|XER_)?ENCODING\s+(\d+)", open(os.path.join(d, f), errors="replace").read()):
                out[m.group(1), m.group(2), (m.group(3) or "u")[0].lower()] = int(m.group(4))
    return out


def xml_sizes(path):
    """type name -> {u: (min, max), a: (min, max)} of the XML description"""
    out = {}
    for ta in ET.parse(path).getroot().iter("TypeAssignment"):
        for e in ta.iter():
            if "uperMaxSizeInBits" in e.attrib:
                out[ta.get("Name")] = {"u": (int(e.get("uperMinSizeInBits")), int(e.get("uperMaxSizeInBits"))), "a": (int(e.get("acnMinSizeInBits")), int(e.get("acnMaxSizeInBits")))}
                break
    return out


def size_of(t, e, decorated):
    return acn.acn_size(t) if decorated and e == "a" else uper_size(t)


def body(rep, case, pool, rtls, n=6, encs=("u", "a"), opts=OPTS, texts=None):
    if not build_case(rep, case, pool, rtls[0], opts, dict(encs=encs, equal=not texts, init=not texts), acn=texts):
        return
    g, r = case.g, case.r
    hs = header_sizes(os.path.join(case.d, "out"))
    xs = xml_sizes(os.path.join(case.d, "ast.xml"))
    L, M = [], []
    adv = {}
    for j, a in enumerate(g.types):
        K = base(a.t)[0].kind
        cn = case.drv.tn(a)
        if a.params:
            continue
        for e in encs:
            mn, mx, tight = size_of(a.t, e, bool(texts))
            bits, by = hs.get((cn, "BITS", e)), hs.get((cn, "BYTES", e))
            if bits is None or by is None:
                rep.violation("missing:%s:%s" % (e, K), "no advertised size for %s" % a.name, case.replay()); return
            adv[j, e] = bits
            if by != max(1, (bits + 7) // 8) and by != (bits + 7) // 8:
                rep.violation("bytes:%s:%s" % (e, K), "%s: %d bits but %d bytes advertised" % (a.name, bits, by), case.replay())
            # the XML description of a containing type only describes what it contains
            if K not in ("OCTCONT", "BITCONT") and (a.name not in xs or xs[a.name][e][1] != bits):
                rep.violation("xml:%s:%s" % (e, K), "%s: code says %d bits, the XML description %s" % (a.name, bits, xs.get(a.name)), case.replay())
            if tight and bits != mx:
                rep.violation("max:%s:%s" % (e, K), "%s: largest encoding has %d bits, %d advertised" % (a.name, mx, bits), case.replay())
            rep.ok(("size", e, klass(a.t))); rep.count("sizes_compared"); rep.count("tight_sizes", int(tight))
        vals = values(case, a.t, n)
        for _ in range(3):
            try:
                vals.append(rand.largest(case.gen, a.t))
            except RuntimeError:
                pass
        for v in vals:
            if texts:
                try:
                    v = acn.fix(case.gen, a.t, v)
                    if not valid(a.t, v):
                        continue
                    acn.acn(a.t, v)
                except (acn.Refuse, acn.Skip, acn.Undetermined, RuntimeError):
                    continue
            for e in encs:
                L.append("%d E%s %d 0 %s" % (j, e, r.choice([0, 0x5a, 0xff]), cdrv.tokens(a.t, v))); M.append((j, a, e))
    seen = {}
    for l, o, (j, a, e) in zip(L, rt.run_lines(case.binary, L), M):
        K = base(a.t)[0].kind
        f = None if o.startswith(("CRASH", "SMALL")) else enc_fields(o)
        if not f:
            rep.violation("enc:%s:%s" % (e, K), "encoding into a buffer of the advertised size: " + o[:600], case.replay(l)); continue
        if not f[1]:
            rep.violation("enc:%s:%s" % (e, K), "valid value not encoded into a buffer of the advertised size: " + o[:200], case.replay(l)); continue
        if f[2] > adv[j, e]:
            rep.violation("exceeds:%s:%s" % (e, K), "%s: an encoding has %d bits, %d advertised" % (a.name, f[2], adv[j, e]), case.replay(l)); continue
        if a.name in xs and K not in ("OCTCONT", "BITCONT") and f[2] < xs[a.name][e][0]:
            rep.violation("below:%s:%s" % (e, K), "%s: an encoding has %d bits, at least %d said the XML description" % (a.name, f[2], xs[a.name][e][0]), case.replay(l)); continue
        seen[j, e] = max(seen.get((j, e), 0), f[2])
        rep.ok(("enc", e, klass(a.t))); rep.count("encodings_measured")
    rep.count("maximum_reached", sum(seen[k] == adv[k] for k in seen))
    if len(rep.samples) < 3:
        rep.samples += [case.asn1()[:600], str(list(hs.items())[:4])]


def body_acn(rep, case, pool, rtls):
    acn.Decor(case.gen).run()
    body(rep, case, pool, rtls, n=10, encs=("a",), texts=acn.acn_text(case.g))


def main(rep):
    rep.rule = "distinct (size | encoding measured, encoding rules, type kind with the shape of its constraints or component kinds); advertised sizes are compared with a size model where the largest encoding is determined, and with every measured encoding"
    rep.assumptions = ["a type whose largest encoding is empty may advertise 0 or 1 bytes"]
    campaign(rep, 240 if tier() == "quick" else 2400, lambda r: rand.Prof(rich=r.choice([.1, .35, .6]), depth=r.choice([2, 3, 3, 4]), big=r.choice([.02, .1])), body, cap=300 if tier() == "quick" else 3000)
    campaign(rep, 120 if tier() == "quick" else 1600, lambda r: rand.Prof(rich=r.choice([.1, .35, .6]), depth=r.choice([2, 3, 3, 4]), big=.005, values=False), body_acn, cap=300 if tier() == "quick" else 3000, tag="acn")
    return rep.finish()
