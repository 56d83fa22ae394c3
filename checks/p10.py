"""P10: generated C uPER codecs conform to X.691 for any grammar."""
from vlib.common import *
from vlib import rt
from vlib.gen.campaign import *
from vlib.gen.model import *


def enc_fields(o):
    """'v<ok>,<err> e<ret>,<err>,<bits>,<cap> <hex>' -> (valid, ret, bits, cap, hex) or None"""
    m = re.match(r"v(\d+),(-?\d+) e(\d+),(-?\d+)(?:,(\d+),(\d+) (\S+))?$", o)
    if not m:
        return None
    return int(m.group(1)), int(m.group(3)), int(m.group(5) or 0), int(m.group(6) or 0), m.group(7) or "-"


def judge_enc(rep, case, a, v, line, o, sfx=""):
    """-> the bits the code produced, or None after a violation"""
    key = "enc%s:%s:" % (sfx, base(a.t)[0].kind)
    if o.startswith("CRASH"):
        rep.violation(key + "crash:" + rt.crash_key(o), o, case.replay(line)); return None
    if o.startswith("SMALL"):
        rep.violation(key + "capacity", "valid value does not fit the generated type: " + o[:200], case.replay(line)); return None
    f = enc_fields(o)
    if f is None:
        raise CheckError("driver answered %r to %r" % (o[:300], line[:300]))
    ok, ret, n, cap, hx = f
    if not ok:
        rep.violation(key + "invalid", "valid value refused by IsConstraintValid: " + o[:200], case.replay(line)); return None
    if not ret:
        rep.violation(key + "refused", "valid value not encoded: " + o[:200], case.replay(line)); return None
    act = bits_of(hx, n)
    exp = uper(a.t, v)
    if act != exp:
        exp = uper(a.t, v, act)
    if act != exp:
        i = next((i for i, (x, y) in enumerate(zip(act, exp)) if x != y), min(len(act), len(exp)))
        rep.violation(key + "bits", "encoding differs from X.691 at bit %d of %d (%d expected): got %s expected %s" % (i, len(act), len(exp), to_hex(act)[:400], to_hex(exp)[:400]), case.replay(line)); return None
    if line.split(" ")[3] == "0" and any(c != "0" for c in bits_of(hx, 8 * ((n + 7) // 8))[n:]):
        rep.violation(key + "padding", "padding bits of the last octet are not zero: " + hx[-20:], case.replay(line)); return None
    return act


def judge_dec(rep, case, a, v, bits, line, o, sfx=""):
    key = "dec%s:%s:" % (sfx, base(a.t)[0].kind)
    if o.startswith("CRASH"):
        rep.violation(key + "crash:" + rt.crash_key(o), o, case.replay(line)); return False
    f = re.match(r"d(\d+),(-?\d+),(-?\d+)(?: \|(.*?) \| (.*))?$", o)
    if not f:
        raise CheckError("driver answered %r to %r" % (o[:300], line[:300]))
    if f.group(1) != "1":
        rep.violation(key + "refused", "the X.691 encoding is not decoded: " + o[:200], case.replay(line)); return False
    if int(f.group(3)) != len(bits):
        rep.violation(key + "position", "decoding stopped at bit %s of %d" % (f.group(3), len(bits)), case.replay(line)); return False
    want = cdrv.tokens(a.t, v)
    if f.group(4).split() != want.split():
        rep.violation(key + "value", "decoded as %s, expected %s" % (f.group(4)[:500], want[:500]), case.replay(line)); return False
    rest = f.group(5).split(" ")
    if not rest[0].startswith("v1,"):
        rep.violation(key + "valid", "decoded value refused by IsConstraintValid: " + rest[0], case.replay(line)); return False
    m = re.match(r"v1,-?\d+ e1,-?\d+,(\d+),\d+ (\S+) r1,-?\d+,(\d+) \|(.*)$", f.group(5))
    if not m or bits_of(m.group(2), int(m.group(1))) != bits or m.group(4).split() != want.split():
        rep.violation(key + "again", "re-encoding and decoding the decoded value gives something else: " + f.group(5)[:600], case.replay(line)); return False
    return True


def body(rep, case, pool, rtls):
    if not build_case(rep, case, pool, rtls[0], BASE_OPTS, dict(encs=("u",), equal=True, init=True)):
        return
    r, g = case.r, case.g
    L, M = [], []
    for j, a in enumerate(g.types):
        vals = values(case, a.t, 14)
        try:
            vals.append(rand.largest(case.gen, a.t))
        except RuntimeError:
            pass
        for v in vals:
            L.append("%d Eu %d %d %s" % (j, r.choice([0, 0x5a, 0xff]), r.randrange(2), cdrv.tokens(a.t, v))); M.append((j, a, v))
    L2, M2 = [], []
    for l, o, (j, a, v) in zip(L, rt.run_lines(case.binary, L), M):
        bits = judge_enc(rep, case, a, v, l, o)
        if bits is None:
            continue
        rep.ok(("enc", klass(a.t), len(bits).bit_length())); rep.count("encodings_compared"); rep.max("max_bits", len(bits))
        L2.append("%d Du %d %s" % (j, r.choice([0, 0x5a, 0xff]), to_hex(bits))); M2.append((a, v, bits))
    # legal encodings by a peer that pads: random padding bits must not matter
    for l, o, (a, v, bits) in zip(L2, rt.run_lines(case.binary, L2), M2):
        if judge_dec(rep, case, a, v, bits, l, o):
            rep.ok(("dec", klass(a.t), len(bits).bit_length())); rep.count("decodings_compared")
    # value assignments are constants in the code
    L3 = ["%d V" % (len(g.types) + k) for k in range(len(g.values))]
    for l, o, (n, a, v) in zip(L3, rt.run_lines(case.binary, L3) if L3 else [], g.values):
        if o.startswith("CRASH") or o.lstrip("|").split() != cdrv.tokens(a.t, v).split():
            rep.violation("constant:" + base(a.t)[0].kind, "value assignment %s is %s, expected %s" % (n, o[:400], cdrv.tokens(a.t, v)[:400]), case.replay(l))
        else:
            rep.ok(("const", klass(a.t))); rep.count("constants_compared")
    if len(rep.samples) < 3:
        rep.samples += [case.asn1()[:600], L[0]]


def R(lo, hi):
    return ("range", lo, hi, True, True)


PROBES = [
    # each grammar exhibits one recorded finding (known_findings.txt)
    ("seqof-enum-subtype", lambda: grammar(("T1", T("SEQOF", cons=[("size", R(1, 4))], elem=T("ENUM", items=[("aa", 0, False), ("bb", 1, False)]))),
                                           ("T2", lambda by: T("REF", ref=by["T1"], cons=[("size", R(1, 2))])))),
    ("seqof-seq-subtype", lambda: grammar(("T1", T("SEQOF", cons=[("size", R(1, 4))], elem=T("SEQ", children=[Child("b", T("BOOL"))]))),
                                          ("T2", lambda by: T("REF", ref=by["T1"], cons=[("size", R(1, 2))])))),
    ("fixed-oct-subtype", lambda: grammar(("T1", T("OCT", cons=[("size", R(1, 6))])), ("T2", lambda by: T("REF", ref=by["T1"], cons=[("size", ("val", 4))])))),
    ("fixed-bit-subtype", lambda: grammar(("T1", T("BIT", cons=[("size", R(1, 6))])), ("T2", lambda by: T("REF", ref=by["T1"], cons=[("size", ("val", 4))])))),
    ("fixed-seqof-subtype", lambda: grammar(("T1", T("SEQOF", cons=[("size", R(1, 6))], elem=T("BOOL"))), ("T2", lambda by: T("REF", ref=by["T1"], cons=[("size", ("val", 4))])))),
    ("inner-present", lambda: grammar(("T1", T("SEQ", children=[Child("a", T("BOOL"), "OPTIONAL"), Child("b", T("BOOL"))])),
                                      ("T2", lambda by: T("REF", ref=by["T1"], suffix=" (WITH COMPONENTS {..., a PRESENT})")))),
    ("containing", lambda: grammar(("T1", T("BOOL")), ("T2", lambda by: T("OCTCONT", ref=by["T1"])))),
    ("inner-absent", lambda: grammar(("T1", T("SEQ", children=[Child("a", T("BOOL"), "OPTIONAL"), Child("b", T("BOOL"))])),
                                     ("T2", lambda by: T("REF", ref=by["T1"], suffix=" (WITH COMPONENTS {..., a ABSENT})")))),
]


def probe_body(rep, case, pool, rtls):
    if any(a.t.kind == "OCTCONT" for a in case.g.types):
        # X.691 10.3.16: a contents constraint does not bound the length; the general length determinant is expected
        if not build_case(rep, case, pool, rtls[0], BASE_OPTS, dict(encs=("u",), equal=True, init=True)):
            return
        l = "1 Eu 0 0 " + cdrv.tokens(case.g.types[1].t, True)
        o = rt.run_lines(case.binary, [l])[0]
        f = enc_fields(o)
        if not f or bits_of(f[4], f[2]) != "0000000110000000":
            rep.violation("enc:OCTCONT:bits", "OCTET STRING (CONTAINING BOOLEAN) encoded as %s, expected 0180" % o, case.replay(l))
        return
    # values of the inner subtyping probes must satisfy the inner constraint
    if case.g.types[-1].t.kind == "REF" and hasattr(case.g.types[-1].t, "suffix"):
        present = "PRESENT" in case.g.types[-1].t.suffix
        if not build_case(rep, case, pool, rtls[0], BASE_OPTS, dict(encs=("u",), equal=True, init=True)):
            return
        for bv in (False, True):
            v = {"b": bv, "a": True} if present else {"b": bv}
            l = "1 Eu 0 0 " + cdrv.tokens(case.g.types[1].t, v)
            if judge_enc(rep, case, case.g.types[1], v, l, rt.run_lines(case.binary, [l])[0]) is not None:
                rep.ok(("probe", case.g.types[1].t.suffix))
        return
    body(rep, case, pool, rtls)


def main(rep):
    rep.rule = "distinct (direction, type kind with the shape of its constraints or the kinds of its components, size class of the encoding) observed and compared bit for bit with an independent X.691 model"
    rep.assumptions = ["the ASN.1 subset is the one asn1scc accepts (no extension markers on composites, IA5String and NumericString only)",
                       "a sender may choose the mantissa and exponent of a REAL (X.690): REAL contents are judged by the number they denote",
                       "presence of a component equal to its DEFAULT is the application's choice in asn1scc"]
    campaign(rep, 160 if tier() == "quick" else 2400, lambda r: rand.Prof(rich=r.choice([.1, .35, .6]), depth=r.choice([2, 3, 3, 4])), body, cap=300 if tier() == "quick" else 3000)
    run_probes(rep, PROBES, probe_body)
    return rep.finish()
