"""P19: the generated automatic test cases of the regression corpus, in C under sanitizers and in Ada with run-time checks."""
from vlib.common import *
from vlib import compiler, corpus
from vlib.gen.campaign import skeleton, cc_key

UPSTREAM = ["-x", "ast.xml", "-uPER", "-ACN", "-ig", "-typePrefix", "ASN1SCC_", "-renamePolicy", "3", "-fp", "AUTO", "-equal"]
MODES = {       # label: (language, options)
    "c": ("c", UPSTREAM),
    "ada": ("Ada", UPSTREAM),
    "c-slim": ("c", UPSTREAM + ["-slim"]),
    "c-deferred": ("c", UPSTREAM + ["-acnDeferred"]),
    "c-plain": ("c", ["-uPER", "-ACN"]),
    "ada-plain": ("Ada", ["-uPER", "-ACN"]),
    "c-eee": ("c", UPSTREAM + ["-eee", "1"]),
    "c-xer": ("c", ["-XER", "-equal", "-typePrefix", "ASN1SCC_"]),
}
SAN = "-g1 -O0 -w -fsanitize=address,undefined -fno-sanitize-recover=all".split()
NAME = re.compile(r"[Tt]est case '([^']*)' (succeeded|failed)")


RUNTIMES = {}      # hash of the sources of a runtime -> its objects, compiled once


def key_of(files):
    h = hashlib.sha1()
    for f in files:
        h.update(os.path.basename(f).encode() + open(f, "rb").read())
    return h.hexdigest()


def runtime_objects(out, cs):
    hs = [os.path.join(out, f) for f in sorted(os.listdir(out)) if f.startswith("asn1crt") and f.endswith(".h")]
    k = key_of(cs + hs)
    if k not in RUNTIMES:
        d = os.path.join(os.path.dirname(os.path.dirname(out)), "rt-" + k[:12] + "-%d" % os.getpid())
        os.makedirs(d)
        objs = []
        for c in cs:
            o = os.path.join(d, os.path.basename(c)[:-2] + ".o")
            rc, _, err = run(["gcc", "-std=gnu99"] + SAN + ["-I" + out, "-c", c, "-o", o], timeout=300)
            if rc:
                raise CheckError("runtime does not compile: " + err[:1000])
            objs.append(o)
        RUNTIMES[k] = objs
    return RUNTIMES[k]


def ada_build(out):
    """gprbuild -m: recompile what does not match the sources; the runtime was compiled by an earlier program"""
    srcs = [os.path.join(out, f) for f in sorted(os.listdir(out)) if f.startswith("adaasn1rtl")]
    k = key_of(srcs)
    obj = os.path.join(out, "obj_x86")
    if k in RUNTIMES:
        shutil.copytree(RUNTIMES[k], obj)
    r = run(["gprbuild", "-q", "-m", "-P", "asn1_x86.gpr", "-j1", "-cargs:ada", "-gnato", "-gnatws"], cwd=out, timeout=600)
    if r[0] == 0 and k not in RUNTIMES:
        d = os.path.join(os.path.dirname(os.path.dirname(out)), "rt-" + k[:12] + "-%d" % os.getpid())
        os.makedirs(d)
        for f in os.listdir(obj):
            if f.startswith("adaasn1rtl"):
                shutil.copy(os.path.join(obj, f), d)
        RUNTIMES[k] = d
    return r


def one(rep, pool, c, label, d):
    lang, o = MODES[label]
    corpus.materialise(c, d)
    out = os.path.join(d, "o")
    os.makedirs(out)
    where = "%s %s" % (c.id, label)
    cmd = ["-" + lang] + o + ([] if c.noatc else ["-atc"]) + ["-o", "o"] + (["sample1.asn1"] if "-XER" in o else ["sample1.asn1", "sample1.acn"])
    shown = "corpus case %s (line %s of %s)\nasn1scc %s\n%s\n" % (c.id, c.id.split("#")[1], c.asn1, " ".join(cmd), c.acn)
    rc, log = pool.run(cmd, d)
    if rc:
        rep.violation("%s:compiler:%s" % (where, skeleton(log)), "accepted grammar refused (exit %d): %s" % (rc, log[:600]), shown); return
    if lang == "c":
        # the generated files and the runtime they come with, as their makefile would build them, plus sanitizers
        cs = [os.path.join(out, f) for f in sorted(os.listdir(out)) if f.endswith(".c")]
        main_ = any(f.endswith("mainprogram.c") for f in cs)
        b = os.path.join(out, "mainprogram")
        rt_ = [f for f in cs if os.path.basename(f).startswith("asn1crt")]
        cs = [f for f in cs if f not in rt_] + runtime_objects(out, rt_)
        rc, so, err = run(["gcc", "-std=gnu99"] + SAN + ["-I" + out] + cs + (["-o", b] if main_ else ["-r", "-o", b]) + ["-lm"][:main_], timeout=600)
    else:
        b = os.path.join(out, "obj_x86", "mainprogram")
        main_ = not c.noatc
        if main_:
            rc, so, err = ada_build(out)
        else:
            os.makedirs(os.path.join(out, "obj_x86"), exist_ok=True)
            srcs = sorted(f for f in os.listdir(os.path.join(out, "src") if os.path.isdir(os.path.join(out, "src")) else out) if f.endswith(".adb"))
            base_ = os.path.join(out, "src") if os.path.isdir(os.path.join(out, "src")) else out
            rc, so, err = 0, "", ""
            for s in srcs:
                rc, so, err = run(["gcc", "-c", "-gnato", "-gnatwn", "-I" + base_, os.path.join(base_, s)], cwd=os.path.join(out, "obj_x86"), timeout=600)
                if rc:
                    break
    if rc:
        rep.violation("%s:build:%s" % (where, cc_key(err + so)), "the generated code does not compile: " + (err + so)[:1500], shown); return
    rep.count("programs_" + label)
    if not main_:
        rep.ok((label, "builds", c.id)); return
    rc, so, err = run([b], cwd=out, timeout=300)
    names = NAME.findall(so)
    bad = [n for n, v in names if v == "failed"]
    good = len(names) - len(bad)
    rep.count("test_cases_" + label, good)
    if rc or bad or "All test cases" not in so:
        rep.violation("%s:run:%s" % (where, "exit%d" % rc if not bad else "failed"), "automatic test cases fail (exit %d): %s %s" % (rc, ", ".join(bad[:5]), (so[-700:] + err[:1200])), shown); return
    for n, _ in names:
        rep.ok((label, c.id, n))
    if not names:
        rep.ok((label, "empty", c.id))


def work(rep, r, idx, sc, cases):
    with compiler.Pool(1) as pool:
        for k, (c, label) in enumerate(cases[idx::NCPU]):
            d = os.path.join(sc, "c%d-%d" % (idx, k))
            one(rep, pool, c, label, d)
            shutil.rmtree(d)


def main(rep):
    rep.rule = "distinct (language and options, corpus grammar, automatic test case) that ran to success under the sanitizers or run-time checks"
    rep.assumptions = ["gcc 13 and GNAT 13"]
    compiler.ensure()
    cases = [c for c in corpus.load() if c.kind == "ok"]
    if tier() == "quick":
        todo = [(c, m) for c in cases for m in ("c", "ada")]
    else:
        todo = [(c, m) for c in cases for m in MODES]
    with Scratch("atc") as sc:
        shards(rep, work, NCPU, (sc, todo))
    rep.count("corpus_grammars", len(cases))
    return rep.finish()
