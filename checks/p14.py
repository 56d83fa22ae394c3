"""P14: generated Ada code interoperates with generated C code."""
from vlib.common import *
from vlib import rt
from vlib.gen.campaign import *
from vlib.gen.model import *
from vlib.gen import acn, adrv
from checks.p10 import enc_fields, R
from checks.p11 import carried, decorate
from checks import p13

OPTS = BASE_OPTS + ["-ACN"]
ADA = ["-Ada"] + OPTS[1:]


def ada_key(err):
    """the first message of gnat without names and places"""
    for ln in err.splitlines():
        m = re.match(r"[\w.-]+\.ad[bs]:\d+:\d+: (?:error: )?(.*)", ln)
        if m and "warning" not in m.group(1):
            return skeleton(m.group(1))
    return skeleton(err[-200:])


def body(rep, case, pool, rtls, texts=None):
    probing = texts is not None
    if not probing:
        texts = decorate(case)
    if not build_case(rep, case, pool, rtls[0], OPTS, dict(encs=("u", "a")), acn=texts):
        return
    r, g = case.r, case.g
    case.opts = ADA
    files = sorted(f for f in os.listdir(case.d) if f.endswith(".asn1") or f.endswith(".acn"))
    rc, log = compile_grammar(pool, case.d, sorted(files, key=lambda f: f.endswith(".acn")), ADA, out="ada")
    if rc:
        rep.violation("compiler:%d:%s" % (rc, skeleton(log)), "grammar accepted for C is refused for Ada (rc %d): %s" % (rc, log[:600]), case.replay()); return
    entries = [(j, e) for j, a in enumerate(g.types) if not a.params for e in "ua"]
    binary, err = adrv.build(case.d, g, entries, cache=os.path.join(os.path.dirname(case.d), "adartl"))
    if not binary:
        acn_only = re.search(r'"MOD_A" is undefined', err) and re.search(r"(?m)^\s+dt\S* Sel\S* \[", texts.get("b.acn", ""))
        rep.violation("acn-only-import" if acn_only else "ada:" + ada_key(err), "generated Ada code does not compile: " + err[:1200], case.replay()); return
    rep.count("ada_programs")
    index = {x: k for k, x in enumerate(entries)}
    L, M = [], []
    for j, a in enumerate(g.types):
        if a.params:
            continue
        vals = values(case, a.t, 8)
        try:
            vals.append(rand.largest(case.gen, a.t))
        except RuntimeError:
            pass
        for v in vals:
            for e in "ua":
                x = v
                if e == "a":
                    x, exp = carried(case, a.t, v)
                    if exp is None or exp == "refuse":
                        continue
                if e == "a" and re.search(r"\b\d{20}", cdrv.tokens(a.t, x)):
                    continue                                       # the Ada runtime declares at most 19 digits for BCD and ASCII
                L.append("%d E%s 0 0 %s" % (j, e, cdrv.tokens(a.t, x))); M.append((j, e, a, x))
    L2, M2 = [], []
    for l, o, m in zip(L, rt.run_lines(case.binary, L) if L else [], M):
        f = enc_fields(o)
        if o.startswith("CRASH") or o.startswith("SMALL") or not f or not f[0] or not f[1]:
            rep.count("messages_not_produced"); continue           # P10, P11
        L2.append("%d %s" % (index[m[0], m[1]], f[4])); M2.append((m, l, f[2], f[4]))
    for l, o, (m, l0, n, hx) in zip(L2, rt.run_lines(binary, L2) if L2 else [], M2):
        j, e, a, v = m
        key = "%s:%s:" % (e, base(a.t)[0].kind)
        where = "C driver: %s\nmessage: %s (%d bits)\nAda driver (type %s): %s\n" % (l0[:2000], hx[:2000], n, a.name, o[:2000])
        if o.startswith("CRASH"):
            rep.violation(key + "crash", "the Ada program died: " + o[:200], case.replay(extra=where)); continue
        x = re.search(r" X(.) (\S+) ?(.*)$", o)
        if x:
            rep.violation(key + "raised:%s:%s" % (x.group(1), skeleton(x.group(3))), "exception %s %s" % (x.group(2), x.group(3)[:200]), case.replay(extra=where)); continue
        f = re.match(r"d(\d),(-?\d+),(\d+)(?: v(\d),(-?\d+) e(\d),(-?\d+),(\d+) (\S+))?$", o)
        if not f:
            raise CheckError("Ada driver answered %r" % o[:300])
        if f.group(1) != "1":
            rep.violation(key + "refused", "the Ada code does not decode what the C code encoded: " + o[:100], case.replay(extra=where)); continue
        if int(f.group(3)) != n:
            rep.violation(key + "position", "the Ada code stops at bit %s of %d" % (f.group(3), n), case.replay(extra=where)); continue
        if f.group(4) != "1":
            rep.violation(key + "invalid", "the Ada code judges the decoded value invalid: " + o[:100], case.replay(extra=where)); continue
        if f.group(6) != "1":
            rep.violation(key + "not-encoded", "the Ada code does not encode the decoded value: " + o[:100], case.replay(extra=where)); continue
        if int(f.group(8)) != n or bits_of(f.group(9), n) != bits_of(hx, n):
            rep.violation(key + "bytes", "Ada encodes the decoded value as %s (%s bits), C as %s (%d bits)" % (f.group(9)[:300], f.group(8), hx[:300], n), case.replay(extra=where)); continue
        rep.ok((e, klass(a.t), n.bit_length())); rep.count("messages_exchanged"); rep.max("max_bits", n)
    hostile(rep, case, entries, binary, [(m[0], m[1], n, hx) for (m, l, n, hx) in M2], probing)
    for f in getattr(case, "feats", ()):
        rep.ok(("feature",) + f)
    if len(rep.samples) < 3 and L2:
        rep.samples += [case.asn1()[:500], L2[0][:200]]


def hostile(rep, case, entries, binary, messages, probing=False):
    """arbitrary bytes through the Ada decoders: no exception, and what is accepted is valid"""
    r, g = case.r, case.g
    sizes, seeds = {}, {}
    for f in os.listdir(os.path.join(case.d, "ada")):
        if f.endswith(".ads"):
            for t, e, n in re.findall(r"(\w+)_REQUIRED_BYTES_FOR_(ACN_)?ENCODING\s*:\s*constant Integer\s*:=\s*(\d+)", open(os.path.join(case.d, "ada", f), errors="replace").read()):
                sizes[f[:-4], t, "a" if e else "u"] = max(1, int(n))
    for j, e, n, hx in messages:
        if n <= 16000:
            seeds.setdefault((j, e), []).append(bits_of(hx, n))
    L2, M = [], []
    # recorded finding: integers in null-terminated ASCII raise Constraint_Error (probe ascii-null-terminated)
    raises = any(re.search(r"encoding ASCII, size null-terminated", x) for x in case.acn.values())
    for k, (j, e) in enumerate(entries):
        a = g.types[j]
        size = sizes[adrv.package(g, j), c_name(a.name), e]
        if size > 4000 or e == "a" and raises and not probing:
            continue
        for _ in range(25):
            h = p13.mutate(r, r.choice(seeds[j, e]) if (j, e) in seeds else "", seeds.get((j, e), []))
            h = (("" if h == "-" else h) + "5a" * size)[:2 * size]
            L2.append("%d %s" % (k, h)); M.append((e, a, h))
    for o2, (e, a, h) in zip(rt.run_lines(binary, L2) if L2 else [], M):
        key = "hostile:%s:%s:" % (e, base(a.t)[0].kind)
        where = "bytes: %s\nAda driver (type %s): %s\n" % (h[:2000], a.name, o2[:2000])
        if o2.startswith("CRASH"):
            rep.violation(key + "crash", "the Ada program died: " + o2[:200], case.replay(extra=where)); continue
        x = re.search(r" X(.) (\S+) ?(.*)$", o2)
        if x:
            rep.violation(key + "raised:%s:%s" % (x.group(1), skeleton(x.group(3))), "exception %s %s" % (x.group(2), x.group(3)[:200]), case.replay(extra=where)); continue
        f = re.match(r"d(\d),(-?\d+),(\d+)(?: v(\d),(-?\d+) e(\d),(-?\d+),(\d+) (\S+))?$", o2)
        if not f:
            raise CheckError("Ada driver answered %r" % o2[:300])
        if f.group(1) == "1" and f.group(4) != "1":
            rep.violation(key + "invalid", "the Ada code delivers a value that it judges invalid", case.replay(extra=where)); continue
        rep.ok(("hostile", e, f.group(1), klass(a.t))); rep.count("hostile_" + ("accepted" if f.group(1) == "1" else "refused"))


PROBES = [
    ("string-subtype", lambda: grammar(("T1", T("STR", charset="IA5String", cons=[("size", R(3, 30))])), ("T2", lambda by: T("REF", ref=by["T1"], cons=[("size", ("val", 24))])))),
    ("alphabet-subtype", lambda: grammar(("T1", T("STR", charset="NumericString", cons=[("size", R(0, 5))])), ("T2", lambda by: T("SEQ", children=[Child("a", T("REF", ref=by["T1"], cons=[("size", R(0, 1))]))])))),
    ("alias-subtype", lambda: grammar(("T1", T("SEQOF", cons=[("size", R(0, 9))], elem=T("BOOL"))), ("T2", lambda by: T("REF", ref=by["T1"])), ("T3", lambda by: T("SEQ", children=[Child("a", T("REF", ref=by["T2"], cons=[("size", R(3, 6))]))])))),
    ("ascii-null-terminated", lambda: grammar(("T1", T("INT", cons=[("range", 5, 9, True, True)])))),
]
TEXTS = {"string-subtype": {"a.acn": "MOD-A DEFINITIONS ::= BEGIN\nT1 [encoding ASCII]\nT2 []\nEND\n"},
         "ascii-null-terminated": {"a.acn": "MOD-A DEFINITIONS ::= BEGIN\nT1 [encoding ASCII, size null-terminated, termination-pattern '00'H]\nEND\n"}}


def probe_body(rep, case, pool, rtls):
    body(rep, case, pool, rtls, TEXTS.get(os.path.basename(case.d)))


def main(rep):
    rep.rule = "distinct (encoding, type kind with the shape of its constraints or components, size class) of messages exchanged"
    campaign(rep, 120 if tier() == "quick" else 1200, lambda r: rand.Prof(rich=r.choice([.1, .35, .6]), depth=r.choice([2, 3, 3, 4]), big=.005, values=False, ada=True), body,
             rtl_args=[dict(san=False)], cap=300 if tier() == "quick" else 5000)
    run_probes(rep, PROBES, probe_body)
    return rep.finish()
