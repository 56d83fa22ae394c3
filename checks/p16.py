"""P16: every mistake is diagnosed with its position and without generating code; correct grammars are accepted."""
from vlib.common import *
from vlib import compiler, corpus
from vlib.gen import rand, acn, mistakes
from vlib.gen.campaign import skeleton
from checks.p21 import tokens_of

POS = re.compile(r"^(?:.*\n)*?(\w+\.(?:asn1|acn)):(\d+):(-?\d+): (?:error|warning): ", re.M)
WARNED = {"unknown-type-spec", "value-outside"}      # reported with their position, but as warnings
FAR = {"syntax", "acn-syntax", "missing-assign", "lower-case-type", "unknown-property", "align-unknown", "endianness-unknown", "bad-string-literal", "null-pattern-bad"}


def run_it(pool, d, opts, files):
    """-> (exit code or None when the compiler did not survive, log, names of generated files)"""
    out = os.path.join(d, "o")
    shutil.rmtree(d, ignore_errors=True); os.makedirs(out)
    for n, t in files.items():
        with open(os.path.join(d, n), "w", newline="") as f:
            f.write(t)
    try:
        rc, log = pool.run(opts + ["-o", "o"] + sorted(files), d, 20)
    except (Timeout, EOFError, OSError, CheckError) as e:
        return None, "the compiler did not finish: %s" % e, []
    return rc, log.replace("\r\n", "\n"), sorted(os.listdir(out))


def options(r, with_acn, atc=True):
    o = r.choice([["-c"], ["-c"], ["-Ada"]]) + ["-uPER"] + (["-ACN"] if with_acn else [])
    o += r.choice([[], ["-equal"], ["-atc"][:atc]]) + ["-typePrefix", r.choice(["", "", "T-"]).replace("-", "")]
    return o + r.choice([[], [], ["-renamePolicy", r.choice("0123")], ["-slim"], ["-ig"]])


def shown(opts, files):
    return "asn1scc %s -o o %s\n" % (" ".join(x or '""' for x in opts), " ".join(sorted(files))) + "".join("--- %s\n%s\n" % kv for kv in sorted(files.items()))


def judged(rep, what, klass, rc, log, out, rx_files, replay, where=None, may_pass=False, warned=False):
    """a refusal must be an orderly one; where: {file: (first line, last line)} the diagnostic may name"""
    if rc is None or rc not in (0, 2, 3):
        rep.violation("%s:crash:%s:%s" % (what, rc, skeleton(log)), "the compiler ended with %s: %s" % (rc, log[:800]), replay); return
    if rc == 0:
        if may_pass:
            rep.ok((klass, "accepted")); return
        if not (warned and POS.search(log) or warned and re.search(r"^Warning: .*File:\w+\.asn1, Line:\d+", log, re.M)):
            rep.violation("%s:accepted" % what, "the mistake is not diagnosed (exit 0): %s" % log[:300], replay); return
        rep.ok((klass, "warned")); return
    m = POS.search(log)
    if not m or m.group(1) not in rx_files:
        rep.violation("%s:no-position:%s" % (what, skeleton(log)), "exit %d without naming file and position: %s" % (rc, log[:600]), replay); return
    if where is not None:
        lo, hi = where.get(m.group(1), (0, -1))
        if not lo <= int(m.group(2)) <= hi and not (hi >= 10 ** 6 and "<EOF>" in log):
            rep.violation("%s:position:%s" % (what, skeleton(log)), "the mistake is at %s, the diagnostic names %s:%s: %s" % (where, m.group(1), m.group(2), log[:400]), replay); return
    if out:
        rep.violation("%s:output" % what, "refused (exit %d) but %s was generated: %s" % (rc, ", ".join(out[:5]), log[:300]), replay); return
    rep.ok((klass, rc, skeleton(log)[:60]), sample=log.strip()[:120])


# ------------------------------------------------------------------ a random correct grammar
def base_grammar(r):
    while True:
        gen = rand.Gen(r, rand.Prof(rich=r.choice([.1, .4]), depth=2, big=0, values=True))
        g = gen.build()
        texts = rand.asn1_text(g)
        if r.random() < .6:
            try:
                acn.Decor(gen).run()
            except acn.Skip:
                continue
            except Exception:
                continue
            if any(a.params for a in g.types):
                g.values = []      # see the probe value-of-parameterised-type
            texts = dict(rand.asn1_text(g)); texts.update(acn.acn_text(g))
        mods = {f: re.match(r"\s*([\w-]+)", t).group(1) for f, t in texts.items() if f.endswith(".asn1")}
        return g, texts, mods


# ------------------------------------------------------------------ mistakes
def wrap(r, t, spec, k):
    """put the wrong type somewhere inside a correct one"""
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        n = "zzw%d" % r.randrange(100, 999)
        c = r.randrange(4)
        if c == 0:
            t, spec = "SEQUENCE {%s %s}" % (n, t), None if spec is None else "[] {%s %s}" % (n, spec)
        elif c == 1:
            t, spec = "SEQUENCE {zzk BOOLEAN, %s %s%s}" % (n, t, r.choice(["", " OPTIONAL"])), None if spec is None else "[] {zzk [], %s %s}" % (n, spec)
        elif c == 2:
            t, spec = "CHOICE {%s %s, zzk NULL}" % (n, t), None if spec is None else "[] {%s %s, zzk []}" % (n, spec)
        else:
            t, spec = "SEQUENCE (SIZE(0..2)) OF %s" % t, None if spec is None else "[] { %s }" % spec
    return t, spec


def plant(r, texts, mods, name, f, isacn):
    """-> (files, {file: (first line, last line)})"""
    texts = dict(texts)
    fa = r.choice(sorted(mods)); fc = fa.replace(".asn1", ".acn")
    x = f(r)
    decl, adecl, imports = [], [], None
    plain = name in ("syntax", "acn-syntax") or r.random() < .3
    if isinstance(x, dict):
        decl, imports = list(x.get("decl", [])), x.get("imports")
        if "child" in x:
            t = "SEQUENCE {zzb BOOLEAN, %s}" % x["child"]
            decl = ["ZzT ::= " + (t if plain else wrap(r, t, None, 0)[0])]
    elif isacn:
        t, spec = x[:2]
        decl, adecl = list(x[2]) if len(x) > 2 else [], list(x[3]) if len(x) > 3 else []
        if not plain:
            t, spec = wrap(r, t, spec, 1)
        decl.append("ZzT ::= " + t)
        if spec is not None:
            adecl.append("ZzT " + spec)
    else:
        decl = ["ZzT ::= " + (x if plain else wrap(r, x, None, 0)[0])]
    where = {}
    lines = texts[fa].split("\n")
    if imports:
        imports = imports.replace("%M", mods[fa] if len(mods) == 1 else r.choice([v for k, v in mods.items() if k != fa]))
        i = next((i for i, l in enumerate(lines) if l.startswith("IMPORTS")), None)
        if i is None:
            lines.insert(1, "IMPORTS %s;" % imports); i = 1
        else:
            lines[i] = lines[i].replace(";", "\n %s;" % imports)
        where[fa] = (1, i + 3)
        if len(mods) == 1 and "Nowhere" not in imports:
            where[fa] = (1, 10 ** 6)      # the module imports from itself
    else:
        ends = [i for i, l in enumerate(lines) if l.strip() == "END"]
        starts = [i for i, l in enumerate(lines) if re.match(r"[A-Za-z][\w-]*( [A-Z][\w-]*)? ::= ", l) and "DEFINITIONS" not in l]
        at = r.choice([ends[-1]] + starts)
        lines[at:at] = decl
        where[fa] = (at + 1, at + len(decl))
        if name in FAR and not isacn:
            where[fa] = (at + 1, 10 ** 6)
    texts[fa] = "\n".join(lines)
    if isacn:
        t = texts.get(fc) or "%s DEFINITIONS ::= BEGIN\n\nEND\n" % mods[fa]
        lines = t.split("\n")
        end = max(i for i, l in enumerate(lines) if l.strip() == "END")
        lines[end:end] = adecl
        where[fc] = (end + 1, 10 ** 6 if name in FAR else end + len(adecl))
        if name == "unknown-type-spec":
            where[fc] = (1, 10 ** 6)
        texts[fc] = "\n".join(lines)
    return texts, where


def planted(rep, r, idx, sc, n):
    cat = [(nm, f, False) for nm, f in mistakes.ASN] + [(nm, f, True) for nm, f in mistakes.ACN]
    with compiler.Pool(1) as pool:
        dead = set()
        for i in range(idx, n, NCPU):
            rr = random.Random("p16/%d/%d" % (seed(), i))
            g, texts, mods = base_grammar(rr)
            d = os.path.join(sc, "m%d" % i)
            opts = options(rr, any(f.endswith(".acn") for f in texts))
            rc, log, out = run_it(pool, d, opts, texts)
            if rc != 0:
                rep.violation("correct:%s:%s" % (rc, skeleton(log)), "correct grammar refused (exit %s): %s" % (rc, log[:600]), shown(opts, texts)); continue
            rep.count("correct_grammars_accepted"); rep.ok(("correct", len(g.types)))
            for k in range(3):
                # every mistake comes up in turn, so a run covers the whole catalogue
                name, f, isacn = cat[(i * 3 + k + seed() * 17) % len(cat)]
                if name in dead:
                    continue
                files, where = plant(rr, texts, mods, name, f, isacn)
                opts = options(rr, any(x.endswith(".acn") for x in files))
                rc, log, out = run_it(pool, d, opts, files)
                rep.count("mistakes_planted")
                judged(rep, "mistake:" + name, name, rc, log, out, files, shown(opts, files), where, warned=name in WARNED)
                if rc is None:
                    dead.add(name)
            shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ token mutations: right or wrong, an orderly answer
def mutate(r, toks, pool):
    t = list(toks)
    for _ in range(r.choice([1, 1, 1, 2])):
        i = r.randrange(len(t)); k = r.choice([0, 1, 2, 3, 4] + [5] * 12)
        if k == 0 and len(t) > 1: del t[i]
        elif k == 1: t.insert(i, t[i])
        elif k == 2:
            j = r.randrange(len(t)); t[i], t[j] = t[j], t[i]
        elif k == 3: t[i] = r.choice(pool)
        elif k == 4: t.insert(i, r.choice(pool))
        elif t[i][:1] not in "[]{}(),;:=.|<":
            same = [x for x in pool if x[:1].isalpha() == t[i][:1].isalpha() and x[:1].islower() == t[i][:1].islower() and x != t[i] and x[:1].isdigit() == t[i][:1].isdigit()]
            if t[i].isdigit():
                same += ["0", "1", "2", "-1", "255", "256", "100000", "18446744073709551616", "99999999999999999999999"]
            if same:
                t[i] = r.choice(same)
    return t


def mutants(rep, r, idx, sc, n, each=10):
    with compiler.Pool(1) as pool:
        for i in range(idx, n, NCPU):
            rr = random.Random("p16x/%d/%d" % (seed(), i))
            g, texts, mods = base_grammar(rr)
            for m in range(each):
                files = dict(texts); f = rr.choice(sorted(files)); tk = tokens_of(files[f])
                files[f] = " ".join(mutate(rr, tk, tk)) + "\n"
                opts = options(rr, any(x.endswith(".acn") for x in files), atc=False)      # test vectors of a mutated SIZE may be gigabytes
                rc, log, out = run_it(pool, os.path.join(sc, "x%d" % i), opts, files)
                rep.count("mutants"); rep.count("mutants_exit_%s" % rc)
                judged(rep, "mutant", "mutant-" + f[-4:], rc, log, out, files, shown(opts, files), may_pass=True)
            shutil.rmtree(os.path.join(sc, "x%d" % i), ignore_errors=True)


# ------------------------------------------------------------------ the documented diagnostics
def documented(rep, r, idx, sc, cases):
    with compiler.Pool(1) as pool:
        for k, (c, lang) in enumerate(cases[idx::NCPU]):
            d = os.path.join(sc, "d%d-%d" % (idx, k))
            corpus.materialise(c, d); os.makedirs(d + "/o")
            cmd = [lang, "-x", "ast.xml", "-uPER", "-ACN", "-ig", "-typePrefix", "ASN1SCC_", "-renamePolicy", "3", "-fp", "AUTO", "-equal", "-atc", "-o", "o", "sample1.asn1", "sample1.acn"]
            rc, log = pool.run(cmd, d)
            one = log.replace("\r", "").replace("\n", "")
            rp = "corpus case %s\nasn1scc %s\n%s" % (c.id, " ".join(cmd), c.acn)
            rep.count("documented_diagnostics")
            if rc not in (2, 3) or one != c.err:
                rep.violation("documented:%s:%s" % (c.id, lang), "documented diagnostic '%s', got (exit %s) '%s'" % (c.err, rc, one[:600]), rp)
            elif os.listdir(d + "/o"):
                rep.violation("documented:%s:%s:output" % (c.id, lang), "refused, but code was generated", rp)
            else:
                rep.ok(("documented", c.err))
            shutil.rmtree(d)


PROBES = [("value-of-parameterised-type", {"a.asn1": "M DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nT1 ::= SEQUENCE {x OCTET STRING (SIZE(0..5))}\nT2 ::= SEQUENCE {a T1}\nv T1 ::= {x '00'H}\nEND\n",
                                             "a.acn": "M DEFINITIONS ::= BEGIN\nT1 <INTEGER: n> [] {x [size n]}\nT2 [] {k INTEGER [encoding pos-int, size 8], a <k> []}\nEND\n"})]


def probes(rep, r, idx, sc):
    with compiler.Pool(1) as pool:
        for name, files in PROBES:
            opts = ["-c", "-uPER", "-ACN"]
            rc, log, out = run_it(pool, os.path.join(sc, name), opts, files)
            rep.count("probes")
            if rc != 0:
                rep.violation("probe:%s:%s" % (name, skeleton(log)), "correct grammar refused (exit %s): %s" % (rc, log[:600]), shown(opts, files))
            else:
                rep.ok(("probe", name))


def main(rep):
    rep.rule = "distinct (mistake or mutated file, exit status, diagnostic text without names and numbers)"
    rep.assumptions = ["the verdict of each catalogued mistake was taken from X.680 and the ACN manual"]
    compiler.ensure()
    q = tier() == "quick"
    fails = [c for c in corpus.load() if c.kind == "fail"]
    with Scratch("diag") as sc:
        shards(rep, probes, 1, (sc,))
        shards(rep, documented, NCPU, (sc, [(c, l) for c in fails for l in ("-c", "-Ada")]))
        shards(rep, planted, NCPU, (sc, 240 if q else 4000))
        shards(rep, mutants, NCPU, (sc, 64 if q else 2400))
    return rep.finish()
