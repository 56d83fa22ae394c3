"""P12: the generated validity functions accept exactly the valid values."""
from vlib.common import *
from vlib import rt
from vlib.gen.campaign import *
from vlib.gen.model import *
from vlib.gen import perturb
from checks.p10 import enc_fields, R


def judge(rep, case, a, ok, what, line, o):
    """-> validity as observed, None after a violation"""
    key = "valid:%s:%s:" % (base(a.t)[0].kind, what)
    if o.startswith("CRASH"):
        rep.violation(key + "crash:" + rt.crash_key(o), o, case.replay(line)); return None
    if o.startswith("SMALL"):
        rep.violation(key + "capacity", "value does not fit the generated type: " + o[:200], case.replay(line)); return None
    m = re.match(r"v(\d+),(-?\d+) e(\d+),(-?\d+)", o)
    if not m:
        raise CheckError("driver answered %r to %r" % (o[:300], line[:300]))
    v, verr, e, eerr = map(int, m.groups())
    if v != int(ok):
        rep.violation(key + ("rejects-valid" if ok else "accepts-invalid"), "%s value (%s) judged %s" % ("valid" if ok else "invalid", what, o[:100]), case.replay(line)); return None
    if (verr == 0) != bool(v):
        rep.violation(key + "error-code", "validity %d with error code %d" % (v, verr), case.replay(line)); return None
    if not v and (e or eerr == 0):
        rep.violation(key + "encodes-invalid", "encoding with checks of an invalid value returned %d, error %d" % (e, eerr), case.replay(line)); return None
    return v


def body(rep, case, pool, rtls, per=40):
    if not build_case(rep, case, pool, rtls[0], BASE_OPTS, dict(encs=("u",), equal=True, init=True)):
        return
    r, g = case.r, case.g
    L, M = [], []
    for j, a in enumerate(g.types):
        for _ in range(per):
            try:
                v = rand.value_of(case.gen, a.t)
            except RuntimeError:
                continue
            if r.random() < .15:
                p = (cdrv.tokens(a.t, v), valid(a.t, v), v, "value")
            else:
                p = perturb.perturb(case.gen, a.t, v)
            if p is None:
                continue
            L.append("%d Eu %d 0 %s" % (j, r.choice([0, 0x5a, 0xff]), p[0])); M.append((j, a, p))
    L2, M2 = [], []
    for l, o, (j, a, p) in zip(L, rt.run_lines(case.binary, L), M):
        ok = judge(rep, case, a, p[1], re.sub(r"-?\d+", "N", p[3]).replace(" ", "-"), l, o)
        if ok is None:
            continue
        rep.ok(("valid" if ok else "invalid", klass(a.t), re.sub(r"-?\d+", "N", p[3]))); rep.count("valid_values" if ok else "invalid_values")
        if p[2] is not None and len(l) < 20000 and perturb.encodable(a.t, p[2]):
            bits = uper(a.t, p[2])
            L2.append("%d Du %d %s" % (j, r.choice([0, 0x5a, 0xff]), to_hex(bits))); M2.append((a, p))
    for l, o, (a, p) in zip(L2, rt.run_lines(case.binary, L2), M2):
        key = "decode:%s:%s:" % (base(a.t)[0].kind, p[3])
        if o.startswith("CRASH"):
            rep.violation(key + "crash:" + rt.crash_key(o), o, case.replay(l)); continue
        m = re.match(r"d(\d+),(-?\d+)", o)
        if int(m.group(1)) != int(p[1]):
            rep.violation(key + ("refuses-valid" if p[1] else "delivers-invalid"), o[:300], case.replay(l)); continue
        if (int(m.group(1)) == 0) != (int(m.group(2)) != 0):
            rep.violation(key + "error-code", "decoding returned %s with error code %s" % m.groups(), case.replay(l)); continue
        rep.ok(("decode", p[1], klass(a.t))); rep.count("decoded_valid" if p[1] else "decoded_invalid_refused")
    if len(rep.samples) < 3:
        rep.samples += [case.asn1()[:600], L[0]]


def S(t, text):
    t.suffix = text
    return t


PROBES = [
    # each grammar exhibits one recorded finding (known_findings.txt): (name, grammar, [(type index, driver tokens, is it valid?)])
    ("ia5-high", lambda: grammar(("T1", T("STR", charset="IA5String", cons=[("size", ("range", 0, 3, True, True))]))), [(0, "s61", True), (0, "sc3a9", False)]),
    ("composite-value", lambda: grammar(("T0", T("CHOICE", children=[Child("p", T("INT", cons=[("range", 0, 9, True, True)])), Child("q", T("BOOL"))])),
                                        ("T1", lambda by: S(T("REF", ref=by["T0"]), " (p : 4 | q : TRUE)"))), [(1, "1 4", True), (1, "2 1", True), (1, "1 5", False)]),
    ("full-components", lambda: grammar(("T0", T("SEQ", children=[Child("a", T("BOOL"), "OPTIONAL"), Child("b", T("BOOL"), "OPTIONAL")])),
                                        ("T1", lambda by: S(T("REF", ref=by["T0"]), " (WITH COMPONENTS {a (TRUE)})"))), [(1, "1 1 0", True), (1, "0 0", False), (1, "1 1 1 1", False)]),
]


def probe_body(vals):
    def f(rep, case, pool, rtls):
        if not build_case(rep, case, pool, rtls[0], BASE_OPTS, dict(encs=("u",), equal=True, init=True)):
            return
        L = ["%d Eu 0 0 %s" % (j, tok) for j, tok, _ in vals]
        for l, o, (j, tok, ok) in zip(L, rt.run_lines(case.binary, L), vals):
            judge(rep, case, case.g.types[j], ok, "value", l, o)
    return f


def main(rep):
    rep.rule = "distinct (verdict, type kind with the shape of its constraints or component kinds, kind of the perturbed node) judged against an independent constraint model; invalid values inside the PER-visible bounds are also decoded"
    rep.assumptions = ["OBJECT IDENTIFIER values follow the runtime's profile (first two arcs at most 2 and 39, at most 20 arcs)",
                       "character strings are terminated within their array"]
    prof = lambda r: rand.Prof(rich=r.choice([.3, .6, .9]), depth=r.choice([2, 3, 4]), inner=r.choice([0, .5, .9]), refs=r.choice([.3, .6]), values=False, big=.005)
    campaign(rep, 240 if tier() == "quick" else 2400, prof, body, cap=300 if tier() == "quick" else 3000)
    for name, g, vals in PROBES:
        run_probes(rep, [(name, g)], probe_body(vals))
    return rep.finish()
