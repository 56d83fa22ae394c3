"""P17: code-generation options never change the wire format."""
from vlib.common import *
from vlib import rt
from vlib.gen.campaign import *
from vlib.gen.model import *
from vlib.gen import acn
from vlib.gen.engine import compile_grammar, build_c
from checks.p10 import enc_fields
from checks.p13 import mutate


def opts(acn_, **kw):
    o = {"-uPER": None, "-ig": None, "-equal": None, "-typePrefix": "", "-renamePolicy": "3"}
    if acn_:
        o["-ACN"] = None
    for k, v in kw.items():
        k = "-" + k
        if v is False:
            o.pop(k, None)
        else:
            o[k] = None if v is True else v
    return ["-c"] + [x for k, v in o.items() for x in ([k] if v is None else [k, v])]


def variants(r, case, acn_):
    """(label, options, driver arguments, runtime index)"""
    top = [a.name for a in case.g.types if not a.params]
    some = sorted(r.sample(top, r.randint(1, len(top))))
    uper = r.random() < .5
    vs = [
        ("slim", opts(acn_, slim=True), {}),
        ("efficient-enums", opts(acn_, eee=r.choice(["1", "2", "5"])), {}),
        ("rename-1", opts(acn_, renamePolicy="1"), {}),
        ("rename-2", opts(acn_, renamePolicy="2"), {}),
        ("type-prefix", opts(acn_, typePrefix="Pq_"), dict(prefix="Pq_")),
        ("field-prefix", opts(acn_, fp="zz_"), dict(fprefix="zz_")) if not acn_ else None,   # known finding
        ("field-prefix-auto", opts(acn_, fp="AUTO"), {}),
        ("bare", opts(acn_, ig=False, equal=False), dict(equal=False)),
        ("empty-sequences", opts(acn_, es=True), {}),
        ("pdus", opts(acn_, icdPdus=",".join(some)), dict(want=set(some))),
        ("all", opts(acn_, slim=True, eee="1", typePrefix="Q", renamePolicy="2", es=True, ig=False, **({} if acn_ else {"fp": "f_"})), dict(prefix="Q", fprefix="" if acn_ else "f_")),
    ]
    return [v for v in vs if v]


def plain(o):
    """an answer of the driver without the numbers of error codes and the place where a decoder gave up"""
    o = re.sub(r"\b([vder])(\d),(-?\d+)", lambda m: "%s%s,%d" % (m.group(1), m.group(2), m.group(3) != "0"), o)
    return re.sub(r"^(d0,\w+),\d+", r"\1", o)


def body(rep, case, pool, rtls):
    r = case.r
    compare(rep, case, pool, rtls, r.random() < .6, variants, 4)


def compare(rep, case, pool, rtls, dec, variants, n):
    """the answers of the reference program and of n programs generated otherwise"""
    r, g = case.r, case.g
    texts = None
    if dec:
        acn.Decor(case.gen).run()
        texts = acn.acn_text(g)
    encs = ("u", "a") if dec else ("u",)
    base_ = dict(encs=encs, equal=True)
    if not build_case(rep, case, pool, rtls[0], opts(dec), base_, acn=texts):
        return
    files = sorted(f for f in os.listdir(case.d) if f.endswith((".asn1", ".acn")))
    L, M = [], []
    for j, a in enumerate(g.types):
        if a.params:
            continue
        vs = []
        for v in values(case, a.t, 6):
            try:
                vs.append(acn.fix(case.gen, a.t, v) if dec else v)
            except (RuntimeError, acn.Skip, acn.Undetermined):
                pass
        for v in vs:
            for e in encs:
                L.append("%d E%s 0 0 %s" % (j, e, cdrv.tokens(a.t, v))); M.append((a, e, "enc"))
        seeds = {e: [] for e in encs}
        for e in encs:
            E = ["%d E%s 0 0 %s" % (j, e, cdrv.tokens(a.t, v)) for v in vs]
            for o in rt.run_lines(case.binary, E) if E else []:
                f = None if o.startswith(("CRASH", "SMALL")) else enc_fields(o)
                if f and f[1] and f[2] <= 40000:
                    seeds[e].append(bits_of(f[4], f[2]))
            for s in seeds[e]:
                L.append("%d D%s 0 %s" % (j, e, to_hex(s))); M.append((a, e, "dec"))
            for _ in range(10):
                L.append("%d D%s 0 %s" % (j, e, mutate(r, r.choice(seeds[e]) if seeds[e] else "", seeds[e]))); M.append((a, e, "hostile"))
    ref = rt.run_lines(case.binary, L) if L else []
    float32 = dec and any("IEEE754-1985-32" in t for t in texts.values())
    vs = variants(r, case, dec)
    for k, (label, o, kw) in enumerate(r.sample(vs, min(n, len(vs)))):
        sub = "v%d" % k
        rc, log = compile_grammar(pool, case.d, files, o, out=sub)
        if rc:
            rep.violation("%s:compiler:%d:%s" % (label, rc, skeleton(log)), "refused with %s: %s" % (" ".join(o), log[:600]), case.replay()); continue
        drv = cdrv.CDriver(g, **dict(base_, **kw))
        binary, err = build_c(case.d, rtls[0], drv, out=sub, name="drv" + sub)
        if not binary:
            rep.violation("%s:cc:%s" % (label, cc_key(err)), "code generated with %s does not compile: %s" % (" ".join(o), err[:1200]), case.replay()); continue
        want = drv.want
        idx = [i for i in range(len(L)) if want is None or M[i][0].name in want]
        outs = rt.run_lines(binary, [L[i] for i in idx])
        for i, x in zip(idx, outs):
            a, e, what = M[i]
            K = base(a.t)[0].kind
            if plain(x) != plain(ref[i]):
                if float32 and "-slim" in o and what == "hostile" and e == "u":
                    continue    # -slim keeps such a REAL in a float: other values than the ACN encoding can carry are rounded
                rep.violation("%s:%s:%s:%s" % (label, what, e, K), "%s with %s, %s without" % (x[:500], " ".join(o), ref[i][:500]), case.replay(L[i])); continue
            rep.ok((label, what, e, K, plain(x)[:2])); rep.count("compared_" + label)
        shutil.rmtree(os.path.join(case.d, sub))
    if len(rep.samples) < 3 and L:
        rep.samples += [case.asn1()[:400], L[0][:200]]


def contains(t):
    """does the type hold a CONTAINING? (its length is counted up to the largest size of the contained type, which depends on the word size)"""
    b = base(t)[0]
    return b.kind in ("OCTCONT", "BITCONT") or any(contains(c.t) for c in b.children or []) or bool(b.elem and contains(b.elem))


def sizeless(o):
    """the answer without the advertised size, which depends on the word size"""
    return re.sub(r"\b(e\d,\d+,\d+),\d+", r"\1", plain(o))


def body4(rep, case, pool, rtls):
    """word size 4: the same bytes as with word size 8 for grammars whose integers fit"""
    r, g = case.r, case.g
    if not build_case(rep, case, pool, rtls[0], opts(False), dict(encs=("u",), equal=True)):
        return
    files = sorted(f for f in os.listdir(case.d) if f.endswith(".asn1"))
    L, M = [], []
    for j, a in enumerate(g.types):
        for v in values(case, a.t, 10) if not contains(a.t) else ():
            L.append("%d Eu 0 0 %s" % (j, cdrv.tokens(a.t, v))); M.append((a, "enc"))
    for (a, _), o in list(zip(list(M), rt.run_lines(case.binary, L))):
        f = None if o.startswith(("CRASH", "SMALL")) else enc_fields(o)
        if f and f[1] and f[2] <= 40000:
            L.append("%d Du 0 %s" % (g.types.index(a), to_hex(bits_of(f[4], f[2])))); M.append((a, "dec"))
    ref = rt.run_lines(case.binary, L) if L else []
    for label, o, rtl in [("word-4", opts(False, wordSize="4", slim=r.random() < .5), rtls[1])]:
        rc, log = compile_grammar(pool, case.d, files, o, out="w4")
        if rc:
            rep.violation("%s:compiler:%d:%s" % (label, rc, skeleton(log)), "refused with %s: %s" % (" ".join(o), log[:600]), case.replay()); continue
        binary, err = build_c(case.d, rtl, cdrv.CDriver(g, encs=("u",), equal=True), out="w4", name="drvw4")
        if not binary:
            rep.violation("%s:cc:%s" % (label, cc_key(err)), "code generated with %s does not compile: %s" % (" ".join(o), err[:1200]), case.replay()); continue
        for (a, what), l, x, y in zip(M, L, rt.run_lines(binary, L), ref):
            K = base(a.t)[0].kind
            if sizeless(x) != sizeless(y):
                rep.violation("%s:%s:u:%s" % (label, what, K), "%s with %s, %s without" % (x[:500], " ".join(o), y[:500]), case.replay(l)); continue
            rep.ok((label, what, "u", K, plain(x)[:2])); rep.count("compared_" + label)


PROBES = [
    ("field-prefix-presence", lambda: grammar(("T1", T("SEQ", children=[Child("a", T("BOOL"), "OPTIONAL"), Child("b", T("BOOL"))]))),
     {"a.acn": "MOD-A DEFINITIONS ::= BEGIN\nT1 [] {\n p BOOLEAN [],\n a [present-when p],\n b []\n}\nEND\n"}, opts(True, fp="zz_"), dict(fprefix="zz_")),
    ("field-prefix-size", lambda: grammar(("T1", T("SEQ", children=[Child("a", T("OCT", cons=[("size", ("range", 0, 9, True, True))])), Child("b", T("BOOL"))]))),
     {"a.acn": "MOD-A DEFINITIONS ::= BEGIN\nT1 [] {\n p INTEGER [encoding pos-int, size 8],\n a [size p],\n b []\n}\nEND\n"}, opts(True, fp="zz_"), dict(fprefix="zz_")),
]


def probe_body(rep, case, pool, rtls):
    texts, o, kw = next(x[2:] for x in PROBES if case.d.endswith("/" + x[0]))
    build_case(rep, case, pool, rtls[0], o, dict(encs=("u", "a"), **kw), acn=texts)


def main(rep):
    rep.rule = "distinct (option, encoding | decoding | hostile input, encoding rules, type kind, verdict) for which code generated with and without the option gave the same answer to the same command"
    rep.assumptions = ["numbers of error codes may depend on the options",
                       "the length of a CONTAINING field is counted up to the largest size of what it contains, which depends on the word size: such types are left out when word sizes are compared"]
    q = tier() == "quick"
    campaign(rep, 64 if q else 1200, lambda r: rand.Prof(rich=r.choice([.1, .35, .6]), depth=r.choice([2, 3, 3, 4]), big=.005, values=False, edges=.12), body, cap=300 if q else 3000)
    campaign(rep, 24 if q else 600, lambda r: rand.Prof(rich=r.choice([.1, .35, .6]), depth=r.choice([2, 3]), big=.005, values=False, edges=.12, wordbits=32), body4,
             rtl_args=[{}, dict(flags=["-DWORD_SIZE=4"])], cap=300 if q else 3000, tag="w4")
    run_probes(rep, [x[:2] for x in PROBES], probe_body)
    return rep.finish()
