"""P21: compilation is deterministic and independent of the layout of the grammar; the default ACN grammar encodes like uPER."""
from vlib.common import *
from vlib import rt
from vlib.gen.campaign import *
from vlib.gen.model import *
from vlib.gen import acn
from vlib.gen.engine import compile_grammar, build_c
from checks.p10 import enc_fields
from checks.p13 import mutate
from checks import p17

TOKEN = re.compile(r"'[0-9A-F]*'[BH]|\"(?:[^\"]|\"\")*\"|::=|[=!<>]=|\.\.\.|\.\.|[A-Za-z](?:-?[A-Za-z0-9])*|-?\d+(?:\.\d+)?(?:[eE]-?\d+)?|--[^\n]*|\s+|.", re.S)


def tokens_of(text):
    return [t for t in TOKEN.findall(text) if not t.isspace() and not t.startswith("--")]


GLUE_TIGHT = set("{}(),;[]")     # no space is needed beside these


def respace(r, text, style):
    """the same tokens with other white space, line ends and comments"""
    if style == "tight":
        out, prev = [], ""
        for t in tokens_of(text):
            if prev and not (prev in GLUE_TIGHT or t in GLUE_TIGHT):
                out.append(" ")
            out.append(t); prev = t
        return "".join(out) + "\n"
    out = []
    for t in tokens_of(text):
        out.append(t)
        k = r.random()
        out.append(" " if k < .6 else "\n" if k < .75 else "\r\n\t" if k < .85 else " -- note " + r.choice(["", "INTEGER (1..2)", "END", "{ x", "\"q"]) + "\n" if k < .93
                   else " /* " + r.choice(["", "TRUE", "::= BEGIN", "* ", "two\nlines"]) + " */ ")
    return "".join(out) + "\n"


def blocks(text):
    """(head, assignments, tail) of a module as rand.asn1_text and acn.acn_text write it: assignments start at the beginning of a line"""
    lines = text.split("\n")
    start = next(i for i, l in enumerate(lines) if "BEGIN" in l) + 1
    while lines[start].startswith("IMPORTS") or not lines[start].strip():
        start += 1
    end = max(i for i, l in enumerate(lines) if l == "END")
    bs = []
    for l in lines[start:end]:
        if re.match(r"[A-Za-z]", l) or not bs:
            bs.append([])
        bs[-1].append(l)
    return lines[:start], bs, lines[end:]


def reorder(r, text):
    h, bs, t = blocks(text)
    vals = [b for b in bs if b[0][:1].islower()]
    typs = [b for b in bs if not b[0][:1].islower()]
    r.shuffle(typs); r.shuffle(vals)
    k = r.random() < .5
    bs = vals + typs if k else typs + vals
    return "\n".join(h + [l for b in bs for l in b] + t)


def layouts(r, texts):
    """(label, {file: text}, file order)"""
    fs = sorted(texts)
    yield "spaced", {f: respace(r, t, "loose") for f, t in texts.items()}, fs
    yield "tight", {f: respace(r, t, "tight") for f, t in texts.items()}, fs
    yield "reordered", {f: reorder(r, t) for f, t in texts.items()}, fs
    rev = fs[:]
    r.shuffle(rev)
    yield "files", texts, rev
    asn = [f for f in fs if f.endswith(".asn1")]
    if len(asn) > 1:      # both modules in one file
        acns = [f for f in fs if f.endswith(".acn")]
        one = {"all.asn1": "\n".join(texts[f] for f in r.sample(asn, len(asn)))}
        if acns:
            one["all.acn"] = "\n".join(texts[f] for f in r.sample(acns, len(acns)))
        yield "one-file", one, sorted(one, reverse=True)


def tree(d):
    out = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            out[os.path.relpath(os.path.join(p, f), d)] = open(os.path.join(p, f), "rb").read()
    return out


def first_difference(a, b):
    for f in sorted(set(a) | set(b)):
        if a.get(f) != b.get(f):
            if f not in a or f not in b:
                return f, "generated only once: " + f
            la, lb = a[f].split(b"\n"), b[f].split(b"\n")
            for i, (x, y) in enumerate(zip(la, lb)):
                if x != y:
                    return f, "%s line %d: %r / %r" % (f, i + 1, x[:200], y[:200])
            return f, f + ": one is a prefix of the other"


DET = [["-c", "-uPER", "-ig", "-equal", "-typePrefix", "", "-x", "ast.xml"], ["-Ada", "-uPER", "-equal"], ["-Scala", "-uPER"], ["-c", "-uPER", "-atc", "-icdUper", "icd.html"],
       ["-c", "-Ada", "-uPER", "-slim", "-x", "ast.xml"], ["-c", "-uPER", "-XER", "-renamePolicy", "1"]]


def deterministic(rep, case, pool, files, dec):
    """compiled at first, and again after other grammars and options, into a directory of its own"""
    r = case.r
    o = list(r.choice(DET))
    if "-Scala" in o and dec:
        o = DET[1]
    if dec:
        o.insert(1, "-ACN")
        if "-icdUper" in o:
            o[o.index("-icdUper")] = "-icdAcn"
    res = []
    for k in range(2):
        d = os.path.join(case.d, "det%d" % k)
        os.makedirs(os.path.join(d, "out"))
        for f in files:
            shutil.copy(os.path.join(case.d, f), d)
        if k:     # compile something else in between
            compile_grammar(pool, case.d, files[:], p17.opts(dec, slim=True, renamePolicy="1"), out="other")
        p = pool if k == 0 else case.second
        rc, log = p.run(o + ["-o", "out"] + files, d)
        t = tree(os.path.join(d, "out")) if rc == 0 else {"log": log.encode()}
        for f in os.listdir(d):
            if f.endswith((".html", ".xml")):
                t[f] = open(os.path.join(d, f), "rb").read()
        res.append((rc, t))
    for k in range(2):
        shutil.rmtree(os.path.join(case.d, "det%d" % k))
    shutil.rmtree(os.path.join(case.d, "other"), ignore_errors=True)
    if res[0] != res[1]:
        f, what = first_difference(res[0][1], res[1][1]) or ("exit", "exit status")
        rep.violation("deterministic:" + os.path.splitext(f)[1], "two compilations with %s differ: exit %d/%d, %s" % (" ".join(o), res[0][0], res[1][0], what), case.replay()); return
    rep.ok(("deterministic", tuple(x for x in o if x.startswith("-") and len(x) > 1), dec)); rep.count("trees_compared"); rep.count("files_compared", len(res[0][1]))
    if res[0][0]:
        rep.count("deterministic_refusals")


def questions(case, encs, dec, n=6, hostile=8):
    """driver commands: encodings of values, decodings of messages and of damaged messages"""
    r, g, L, M = case.r, case.g, [], []
    for j, a in enumerate(g.types):
        if a.params:
            continue
        vs = []
        for v in values(case, a.t, n):
            try:
                vs.append(acn.fix(case.gen, a.t, v) if dec else v)
            except (RuntimeError, acn.Skip, acn.Undetermined):
                pass
        for e in encs:
            E = ["%d E%s 0 0 %s" % (j, e, cdrv.tokens(a.t, v)) for v in vs]
            seeds = []
            for ln, o in zip(E, rt.run_lines(case.binary, E) if E else []):
                L.append(ln); M.append((a, e, "enc"))
                f = None if o.startswith(("CRASH", "SMALL")) else enc_fields(o)
                if f and f[1] and f[2] <= 40000:
                    seeds.append(bits_of(f[4], f[2]))
            for s in seeds:
                L.append("%d D%s 0 %s" % (j, e, to_hex(s))); M.append((a, e, "dec"))
            for _ in range(hostile):
                L.append("%d D%s 0 %s" % (j, e, mutate(r, r.choice(seeds) if seeds else "", seeds))); M.append((a, e, "hostile"))
    return L, M


def same(rep, case, label, pool, rtl, L, M, ref, texts, order, o, base_, comparable=lambda m: True):
    """the grammar in texts compiles to a program giving the same answers"""
    d = os.path.join(case.d, "lay")
    os.makedirs(d)
    for f, t in texts.items():
        open(os.path.join(d, f), "w", newline="").write(t)
    try:
        shown = case.replay(extra="\nvariant %s:\n%s" % (label, "\n".join("-- %s\n%s" % kv for kv in texts.items())))
        rc, log = compile_grammar(pool, d, order, o)
        if rc:
            rep.violation("%s:compiler:%d:%s" % (label, rc, skeleton(log)), "variant refused with %s: %s" % (" ".join(o), log[:600]), shown); return
        binary, err = build_c(d, rtl, cdrv.CDriver(case.g, **base_))
        if not binary:
            rep.violation("%s:cc:%s" % (label, cc_key(err)), "code generated from the variant does not compile: " + err[:1200], shown); return
        idx = [i for i in range(len(L)) if comparable(M[i])]
        for i, x in zip(idx, rt.run_lines(binary, [L[i] for i in idx])):
            a, e, what = M[i]
            K = base(a.t)[0].kind
            if p17.plain(x) != p17.plain(ref[i]):
                rep.violation("%s:%s:%s:%s" % (label, what, e, K), "%s from the variant, %s from the original" % (x[:500], ref[i][:500]), shown + "\ndriver command: " + L[i]); continue
            rep.ok((label, what, e, K, p17.plain(x)[:2])); rep.count("compared_" + label)
    finally:
        shutil.rmtree(d)


def body(rep, case, pool, rtls):
    r, g = case.r, case.g
    dec = r.random() < .6
    texts = None
    if dec:
        acn.Decor(case.gen).run()
        texts = acn.acn_text(g)
    encs = ("u", "a") if dec else ("u",)
    base_ = dict(encs=encs, equal=True)
    o = p17.opts(dec)
    if not build_case(rep, case, pool, rtls[0], o, base_, acn=texts):
        return
    files = sorted(f for f in os.listdir(case.d) if f.endswith((".asn1", ".acn")))
    deterministic(rep, case, pool, files, dec)
    L, M = questions(case, encs, dec)
    ref = rt.run_lines(case.binary, L) if L else []
    if not L:
        return
    all_ = {f: open(os.path.join(case.d, f)).read() for f in files}
    for label, t, order in r.sample(list(layouts(r, all_)), 2):
        same(rep, case, label, pool, rtls[0], L, M, ref, t, order, o, base_)
    if not dec:
        default_acn(rep, case, pool, rtls[0], L, M, ref, files)


def default_acn(rep, case, pool, rtl, L, M, ref, files):
    """-ACND: the grammar of default encodings leaves uPER alone, and its ACN bits are the uPER bits"""
    rc, log = compile_grammar(pool, case.d, files, p17.opts(False, ACND=True), out="def")
    names = [os.path.splitext(f)[0] + ".acn" for f in files if f.endswith(".asn1")]
    d = os.path.join(case.d, "def")
    if rc or not all(os.path.exists(os.path.join(d, n)) for n in names):
        rep.violation("acnd:compiler:%d:%s" % (rc, skeleton(log)), "compilation with -ACND fails: " + log[:600], case.replay()); return
    t = {f: open(os.path.join(case.d, f)).read() for f in files}
    t.update({n: open(os.path.join(d, n)).read() for n in names})
    shutil.rmtree(d)
    L2 = [re.sub(r"^(\d+) ([ED])u", r"\1 \2a", l) for l in L]
    same(rep, case, "default-acn", pool, rtl, L2, M, ref, t, sorted(t), p17.opts(True), dict(encs=("u", "a"), equal=True))


def main(rep):
    rep.rule = "distinct (layout | default ACN grammar, encoding | decoding | hostile input, encoding rules, type kind, verdict) with equal answers, and distinct (options, grammar kind) compiled twice to identical files"
    rep.assumptions = ["numbers of error codes may differ between layouts"]
    q = tier() == "quick"
    campaign(rep, 72 if q else 1800, lambda r: rand.Prof(rich=r.choice([.1, .35, .6]), depth=r.choice([2, 3, 3]), big=.005, values=r.random() < .5), with_second, cap=200 if q else 3000)
    return rep.finish()


SECOND = []


def with_second(rep, case, pool, rtls):
    from vlib import compiler
    if not SECOND:
        SECOND.append(compiler.Pool(1))     # a second compiler process, with another history
    case.second = SECOND[0]
    body(rep, case, pool, rtls)
