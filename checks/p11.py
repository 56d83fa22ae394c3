"""P11: generated C ACN codecs produce and accept exactly the layout the ACN specification prescribes."""
from vlib.common import *
from vlib import rt
from vlib.gen.campaign import *
from vlib.gen.model import *
from vlib.gen import acn
from checks.p10 import enc_fields, judge_dec

OPTS = [o for o in BASE_OPTS] + ["-ACN"]


def decorate(case, **kw):
    d = acn.Decor(case.gen, **kw).run()
    case.feats = d.feats
    return acn.acn_text(case.g)


def carried(case, t, v, keep=False):
    """(value, expectation): the value the encoding can carry and its bits, 'refuse' or None when the outcome is open"""
    try:
        v = acn.fix(case.gen, t, v, keep)
        if not valid(t, v):
            return v, None
        try:
            return v, acn.acn(t, v)
        except acn.Refuse:
            return v, "refuse"
    except (acn.Skip, acn.Undetermined, RuntimeError):
        return v, None


def judge_enc(rep, case, a, v, exp, line, o):
    key = "enc:%s:" % base(a.t)[0].kind
    if o.startswith("CRASH"):
        rep.violation(key + "crash:" + rt.crash_key(o), o, case.replay(line)); return None
    if o.startswith("SMALL"):
        rep.violation(key + "capacity", "valid value does not fit the generated type: " + o[:200], case.replay(line)); return None
    f = enc_fields(o)
    if f is None:
        raise CheckError("driver answered %r to %r" % (o[:300], line[:300]))
    ok, ret, n, cap, hx = f
    if not ok:
        rep.violation(key + "invalid", "valid value refused by IsConstraintValid: " + o[:200], case.replay(line)); return None
    if exp == "refuse":
        if ret:
            rep.violation(key + "contradiction", "a value that contradicts its determinants was encoded: " + o[:200], case.replay(line)); return None
        rep.ok(("contradiction", klass(a.t))); rep.count("contradictions_refused")
        return None
    if not ret:
        rep.violation(key + "refused", "valid value not encoded: " + o[:200], case.replay(line)); return None
    act = bits_of(hx, n)
    if act != exp:
        exp = acn.acn(a.t, v, act)
    if act != exp:
        i = next((i for i, (x, y) in enumerate(zip(act, exp)) if x != y), min(len(act), len(exp)))
        rep.violation(key + "bits", "encoding differs from the ACN layout at bit %d of %d (%d expected): got %s expected %s" % (i, len(act), len(exp), to_hex(act)[:400], to_hex(exp)[:400]), case.replay(line)); return None
    return act


def body(rep, case, pool, rtls):
    texts = decorate(case)
    if not build_case(rep, case, pool, rtls[0], OPTS, dict(encs=("a",)), acn=texts):
        return
    r, g = case.r, case.g
    L, M = [], []
    for j, a in enumerate(g.types):
        if a.params:
            continue
        vals = values(case, a.t, 14)
        try:
            vals.append(rand.largest(case.gen, a.t))
        except RuntimeError:
            pass
        for i, v in enumerate(vals):
            v, exp = carried(case, a.t, v, i % 7 == 6)
            if exp is None:
                rep.count("values_open"); continue
            L.append("%d Ea %d %d %s" % (j, r.choice([0, 0x5a, 0xff]), r.randrange(2), cdrv.tokens(a.t, v))); M.append((j, a, v, exp))
    L2, M2 = [], []
    for l, o, (j, a, v, exp) in zip(L, rt.run_lines(case.binary, L), M):
        bits = judge_enc(rep, case, a, v, exp, l, o)
        if bits is None:
            continue
        rep.ok(("enc", klass(a.t), len(bits).bit_length())); rep.count("encodings_compared"); rep.max("max_bits", len(bits))
        L2.append("%d Da %d %s" % (j, r.choice([0, 0x5a, 0xff]), to_hex(bits))); M2.append((a, v, bits))
    for l, o, (a, v, bits) in zip(L2, rt.run_lines(case.binary, L2) if L2 else [], M2):
        if judge_dec(rep, case, a, v, bits, l, o):
            rep.ok(("dec", klass(a.t), len(bits).bit_length())); rep.count("decodings_compared")
    for f in case.feats:
        rep.ok(("feature",) + f)
    if len(rep.samples) < 3 and L:
        rep.samples += [case.asn1()[:500], texts["a.acn"][:600], L[0]]


PROBES = [
    ("fixed-null-terminated", lambda: grammar(("T1", T("SEQOF", cons=[("size", ("val", 3))], elem=T("BOOL")))), {"a.acn": "MOD-A DEFINITIONS ::= BEGIN\nT1 [size null-terminated, termination-pattern 'FF'H]\nEND\n"}),
]


def probe_body(rep, case, pool, rtls):
    texts = next(x for n, _, x in PROBES if case.d.endswith("/" + n))
    build_case(rep, case, pool, rtls[0], OPTS, dict(encs=("a",)), acn=texts)


def main(rep):
    rep.rule = "distinct (direction, type kind with the shape of its constraints or components, size class) compared bit for bit with an independent ACN model, and distinct ACN features exercised"
    rep.assumptions = ["a determinant that no present component determines leaves the outcome open",
                       "values a null-terminated encoding cannot carry (the pattern occurs in them) are excluded"]
    campaign(rep, 160 if tier() == "quick" else 2400, lambda r: rand.Prof(rich=r.choice([.1, .35, .6]), depth=r.choice([2, 3, 3, 4]), big=.005, values=False), body, cap=300 if tier() == "quick" else 3000)
    run_probes(rep, [(n, b) for n, b, _ in PROBES], probe_body)
    return rep.finish()
