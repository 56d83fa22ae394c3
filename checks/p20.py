"""P20: streaming mode (-DASN1SCC_STREAMING) is equivalent to one-shot coding."""
from vlib.common import *
from vlib import rt
from vlib.gen.campaign import *
from vlib.gen.model import *
from vlib.gen import acn
from vlib.gen.engine import build_c
from checks.p10 import enc_fields
from checks.p13 import mutate
from checks.p17 import opts

# encodings that look at earlier or later octets of the message than the one at hand, which a small buffer does not hold
NOT_STREAMABLE = re.compile(r"align-to-next\s+d?word|null-terminated", re.I)


def size_of(r, n):
    """a buffer size for a message of n octets"""
    x = r.random()
    if x < .25:
        return r.choice([1, 2, 3])
    if x < .5 and n > 1:
        return max(1, min(n + r.choice([-1, 0, 1, 2]), 100000))
    if x < .7 and n > 3:
        return max(1, n // r.choice([2, 3, 4]) + r.choice([-1, 0, 1]))
    return r.choice([1, 4, 7, 8, 16, 64, 255, 1024])


def enc_stream(o):
    m = re.match(r"v(\d+),(-?\d+) e(\d+),(-?\d+)(?:,(\d+),(\d+) (\S+))?$", o)
    return m and (int(m.group(1)), int(m.group(3)), int(m.group(4)) != 0, int(m.group(5) or 0), m.group(7) or "-", int(m.group(6) or 0))


def body(rep, case, pool, rtls):
    r, g = case.r, case.g
    dec = r.random() < .6
    texts = None
    if dec:
        d = acn.Decor(case.gen, aligns=r.choice([0, 0, .1]))
        d.run()
        texts = acn.acn_text(g)
    encs = ("u", "a") if dec and not any(NOT_STREAMABLE.search(t) for t in texts.values()) else ("u",)
    if not build_case(rep, case, pool, rtls[0], opts(dec), dict(encs=encs), acn=texts):
        return
    os.unlink(os.path.join(case.d, "out", "drv_main.c"))
    sbin, err = build_c(case.d, rtls[1], cdrv.CDriver(g, encs=encs, stream=True), name="drvs")
    if not sbin:
        rep.violation("cc:" + cc_key(err), "code for streaming mode does not compile: " + err[:1200], case.replay()); return
    L = []          # (one-shot line, streaming line, assignment, encoding, what)
    for j, a in enumerate(g.types):
        if a.params:
            continue
        vs = []
        for v in values(case, a.t, 6):
            try:
                vs.append(acn.fix(case.gen, a.t, v) if dec else v)
            except (RuntimeError, acn.Skip, acn.Undetermined):
                pass
        for e in encs:
            E = ["%d E%s 0 0 %s" % (j, e, cdrv.tokens(a.t, v)) for v in vs]
            seeds = []
            for v, o in zip(vs, rt.run_lines(case.binary, E) if E else []):
                f = None if o.startswith(("CRASH", "SMALL")) else enc_fields(o)
                if not f:
                    continue
                n = (f[2] + 7) // 8
                for size in {size_of(r, n) for _ in range(3)}:
                    t = cdrv.tokens(a.t, v)
                    L.append(("%d E%s 0 0 %s" % (j, e, t), "%d E%s %d %s" % (j, e, size, t), a, e, "enc"))
                if f[1] and f[2] <= 40000:
                    s = bits_of(f[4], f[2])
                    seeds.append(s)
                    for size in {size_of(r, n) for _ in range(3)}:
                        L.append(("%d D%s 0 %s" % (j, e, to_hex(s)), "%d D%s %d %d %s" % (j, e, size, r.random() < .3, to_hex(s)), a, e, "dec"))
                    if len(s) > 8:
                        h = to_hex(s[:r.randrange(len(s) // 8) * 8])
                        L.append(("%d D%s 0 %s" % (j, e, h), "%d D%s %d 0 %s" % (j, e, size_of(r, n), h), a, e, "truncated"))
            for _ in range(6):
                h = mutate(r, r.choice(seeds) if seeds else "", seeds)
                L.append(("%d D%s 0 %s" % (j, e, h), "%d D%s %d 0 %s" % (j, e, size_of(r, len(h) // 2), h), a, e, "hostile"))
    one = rt.run_lines(case.binary, [x[0] for x in L]) if L else []
    two = rt.run_lines(sbin, [x[1] for x in L]) if L else []
    for (l1, l2, a, e, what), o1, o2 in zip(L, one, two):
        key = "%s:%s:%s:" % (what, e, base(a.t)[0].kind)
        why = "one-shot %s\nstreaming %s\none-shot command %s" % (o1[:600], o2[:600], l1[:300])
        if o2.startswith("CRASH"):
            rep.violation(key + "crash:" + rt.crash_key(o2), why, case.replay(l2)); continue
        if o1.startswith(("CRASH", "SMALL")):
            continue                # the business of P10, P11 and P13
        if "POSITION" in o2:
            rep.violation(key + "position-in-buffer", why, case.replay(l2)); continue
        if what == "enc":
            f, s = enc_fields(o1), enc_stream(o2)
            if not f or not s:
                raise CheckError("driver answered %r / %r" % (o1[:200], o2[:200]))
            if (f[0], f[1]) != s[:2]:
                rep.violation(key + "verdict", why, case.replay(l2)); continue
            if f[1] and (f[2], f[4]) != (s[3], s[4]):
                rep.violation(key + "bytes", why, case.replay(l2)); continue
            rep.count("pushes", s[5])
        else:
            m1 = re.match(r"d(\d),(-?\d+),(-?\d+)(?: \|(.*?) \| )?", o1)
            m2 = re.match(r"d(\d),(-?\d+),(-?\d+),(\d+)(?: \|(.*))?$", o2)
            if not m1 or not m2:
                raise CheckError("driver answered %r / %r" % (o1[:200], o2[:200]))
            if m1.group(1) != m2.group(1) or (m1.group(2) == "0") != (m2.group(2) == "0"):
                rep.violation(key + "verdict", why, case.replay(l2)); continue
            if m1.group(1) == "1":
                if m1.group(3) != m2.group(3):
                    rep.violation(key + "position", why, case.replay(l2)); continue
                if m1.group(4).split() != m2.group(5).split():
                    rep.violation(key + "value", why, case.replay(l2)); continue
            rep.count("fetches", int(m2.group(4)))
        rep.count(what + "_" + e)
        rep.ok((what, e, base(a.t)[0].kind, o2[:2], l2.split(" ")[2]))
    if len(rep.samples) < 3 and L:
        rep.samples += [case.asn1()[:300], L[0][1][:200]]


def main(rep):
    rep.rule = "a message coded through a small buffer that is pushed out or refilled on demand, judged against one-shot coding of the same message; classes by operation, encoding, kind, verdict and buffer size"
    rep.assumptions += ["the sink and the source behave as in Docs/examples/streaming_mode: the rest of the buffer is written by the user after encoding; the source lowers the number of octets at the end of the message (or goes on with zeroes)",
                        "ACN encodings that look behind or ahead (alignment, terminators, patterns, external determinants) are not streamed"]
    q = tier() == "quick"
    campaign(rep, int(os.environ.get("N20", 120)) if q else 1800, lambda r: rand.Prof(rich=r.choice([.1, .35, .6]), depth=r.choice([2, 3, 3, 4]), values=False), body,
             rtl_args=[{}, {"flags": ("-DASN1SCC_STREAMING",)}], cap=300 if q else 3000)
    return rep.finish()
