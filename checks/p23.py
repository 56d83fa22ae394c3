"""P23: generated equality functions and initialisers are sound."""
from vlib.common import *
from vlib import rt
from vlib.gen.campaign import *
from vlib.gen.model import *
from vlib.gen import perturb
from vlib.gen.rand import rand_real


def reals(t, v, out):
    """the REAL leaves of a value, in order"""
    b, _ = base(t)
    k = b.kind
    if k == "REAL":
        out.append(v)
    elif k in ("SEQOF", "SETOF"):
        for x in v:
            reals(b.elem, x, out)
    elif k in ("SEQ", "SET"):
        for c in b.children:
            if c.name in v:
                reals(c.t, v[c.name], out)
            elif c.opt == "DEFAULT":
                reals(c.t, c.default, out)
    elif k == "CHOICE":
        reals(next(c.t for c in b.children if c.name == v[0]), v[1], out)
    elif k in ("OCTCONT", "BITCONT"):
        reals(b.ref.t, v, out)
    return out


def strip(t, v):
    """the value with every REAL replaced by 0 and DEFAULT components spelled with presence"""
    b, _ = base(t)
    k = b.kind
    if k in ("REAL", "NULL"):
        return 0
    if k in ("SEQOF", "SETOF"):
        return [strip(b.elem, x) for x in v]
    if k in ("SEQ", "SET"):
        return {c.name: (strip(c.t, v[c.name]) if c.name in v else ("default", strip(c.t, c.default)) if c.opt == "DEFAULT" else None) for c in b.children}
    if k == "CHOICE":
        return (v[0], strip(next(c.t for c in b.children if c.name == v[0]), v[1]))
    if k in ("OCTCONT", "BITCONT"):
        return strip(b.ref.t, v)
    return v


def same_real(a, b):
    """True, False, or None when the documented tolerance decides"""
    if a == b:
        return True
    if cdrv.isnan_bits(a) or cdrv.isnan_bits(b):
        return cdrv.isnan_bits(a) and cdrv.isnan_bits(b)
    x, y = b2f(a), b2f(b)
    if x == y:
        return True
    if x in (float("inf"), float("-inf")) or y in (float("inf"), float("-inf")) or (x < 0) != (y < 0):
        return False
    if abs(x - y) <= 1e-3 * max(abs(x), abs(y)):
        return None
    return False


def expected(t, u, v):
    if strip(t, u) != strip(t, v):
        return False
    ra, rb = reals(t, u, []), reals(t, v, [])
    s = [same_real(x, y) for x, y in zip(ra, rb)]
    return False if False in s else None if None in s else True


def judge_q(rep, case, a, u, v, what, l, o):
    K = base(a.t)[0].kind
    key = "equal:%s:%s:" % (K, what)
    if o.startswith("CRASH"):
        rep.violation(key + "crash:" + rt.crash_key(o), o, case.replay(l)); return
    if o.startswith("SMALL"):
        rep.count("pairs_beyond_capacity"); return
    m = re.match(r"q(\d+),(\d+),(\d+),(\d+)$", o)
    if not m:
        raise CheckError("driver answered %r to %r" % (o[:300], l[:300]))
    pq, qp, pp, qq = (int(x) != 0 for x in m.groups())
    if not pp or not qq:
        rep.violation(key + "reflexive", "a value is not equal to itself: " + o, case.replay(l)); return
    if pq != qp:
        rep.violation(key + "symmetric", "equality is not symmetric: " + o, case.replay(l)); return
    e = expected(a.t, u, v)
    if e is None:
        rep.count("pairs_within_real_tolerance"); return
    if pq != e:
        rep.violation(key + ("distinguishes-equal" if e else "confuses-different"), "%s values: %s" % ("equal" if e else "different", o), case.replay(l)); return
    rep.ok(("equal", e, klass(a.t), what)); rep.count("equal_pairs" if e else "different_pairs")


def default(t, opt):
    """the zero-like content of a type; opt: optional components present"""
    b, _ = base(t)
    k = b.kind
    if k == "INT":
        if valid(t, 0):
            return 0
        lo, hi = int_range(t)
        return lo if lo is not None else hi
    if k == "ENUM":
        return b.items[0][1]
    if k == "BOOL":
        return False
    if k == "REAL":
        return 0
    if k in ("OCT", "BIT", "STR", "SEQOF", "SETOF"):
        lo, hi = size_range(t)
        n = hi if opt == 3 and hi <= 200 else lo or 0
        return bytes(n) if k == "OCT" else "0" * n if k == "BIT" else " " * n if k == "STR" else [default(b.elem, opt) for _ in range(n)]
    if k in ("SEQ", "SET"):
        return {c.name: (c.default if c.opt == "DEFAULT" and opt != 2 else default(c.t, opt)) for c in b.children if opt or c.opt != "OPTIONAL"}
    if k == "CHOICE":
        return (b.children[0].name, default(b.children[0].t, opt))
    if k in ("OCTCONT", "BITCONT"):
        return default(b.ref.t, opt)
    if k in ("OID", "ROID"):
        return []
    return None


def admits_default(t):
    return all(valid(t, default(t, o)) for o in (0, 1, 2, 3)) and not any(x in ("OID", "ROID") for x in leaves(t))


def leaves(t):
    b, _ = base(t)
    if b.elem is not None:
        return leaves(b.elem)
    if b.children:
        return [x for c in b.children for x in leaves(c.t)]
    if b.kind in ("OCTCONT", "BITCONT"):
        return leaves(b.ref.t)
    return [b.kind]


def judge_i(rep, case, a, l, o):
    K = base(a.t)[0].kind
    key = "init:%s:" % K
    if o.startswith("CRASH"):
        rep.violation(key + "crash:" + rt.crash_key(o), o, case.replay(l)); return None
    m = re.match(r"\|(.*?) \| v(\d+),(-?\d+)(?: e(\d+),(-?\d+),(\d+))? ? \|(.*)$", o)
    if not m:
        raise CheckError("driver answered %r to %r" % (o[:300], l[:300]))
    dump, ok, cdump = m.group(1).split(), int(m.group(2)), m.group(7).split()
    if any(x.startswith("!") for x in dump):
        rep.violation(key + "storage", "initialised value has an impossible count or kind: " + o[:300], case.replay(l)); return None
    if dump != cdump:
        rep.violation(key + "constant", "initialise function gives %s, constant %s" % (" ".join(dump)[:400], " ".join(cdump)[:400]), case.replay(l)); return None
    if (int(m.group(3)) == 0) != bool(ok):
        rep.violation(key + "error-code", o[:200], case.replay(l)); return None
    if ok and m.group(4) != "1":
        rep.violation(key + "encode", "the initial value is valid but is not encoded: " + o[:300], case.replay(l)); return None
    if not ok and not admits_default(a.t):
        rep.count("default_content_not_admitted")
    elif not ok:
        rep.violation(key + "invalid", "the initial value is not valid: " + o[:300], case.replay(l)); return None
    rep.ok(("init", klass(a.t))); rep.count("initial_values")
    return dump


def body(rep, case, pool, rtls, per=16):
    if not build_case(rep, case, pool, rtls[0], BASE_OPTS, dict(encs=("u",), equal=True, init=True)):
        return
    r, g = case.r, case.g
    L, M = [], []
    for j, a in enumerate(g.types):
        for jk in (0, 0xff, r.randrange(256)):
            L.append("%d I %d" % (j, jk)); M.append((j, a, None, None, "init"))
        prev = None
        for _ in range(per):
            try:
                v = rand.value_of(case.gen, a.t)
            except RuntimeError:
                continue
            tv = cdrv.tokens(a.t, v)
            x = r.random()
            if x < .3 or prev is None:
                L.append("%d Q %s %s" % (j, tv, tv)); M.append((j, a, v, v, "same"))
            elif x < .4:
                L.append("%d Q %s %s" % (j, tv, cdrv.tokens(a.t, prev))); M.append((j, a, v, prev, "other"))
            else:
                p = perturb.perturb(case.gen, a.t, v)
                if p and p[2] is not None:
                    if r.random() < .5:
                        L.append("%d Q %s %s" % (j, tv, p[0])); M.append((j, a, v, p[2], re.sub(r"-?\d+", "N", p[3]).replace(" ", "-")))
                    else:
                        L.append("%d Q %s %s" % (j, p[0], tv)); M.append((j, a, p[2], v, re.sub(r"-?\d+", "N", p[3]).replace(" ", "-")))
            prev = v
    init = {}
    for l, o, (j, a, u, v, what) in zip(L, rt.run_lines(case.binary, L), M):
        if what == "init":
            d = judge_i(rep, case, a, l, o)
            if d is not None and init.setdefault(j, d) != d:
                rep.violation("init:%s:stale" % base(a.t)[0].kind, "the initial value depends on what the storage held before", case.replay(l))
        else:
            judge_q(rep, case, a, u, v, what, l, o)
    if len(rep.samples) < 3:
        rep.samples += [case.asn1()[:600], L[-1][:300]]


def main(rep):
    rep.rule = "distinct (relation judged, type kind with the shape of its constraints or component kinds, kind of the node that differs); pairs are built in storage prefilled with different bytes"
    rep.assumptions = ["REAL values within a relative distance of 1e-3 are left to the documented tolerance"]
    campaign(rep, 240 if tier() == "quick" else 2400, lambda r: rand.Prof(rich=r.choice([.1, .35, .6]), depth=r.choice([2, 3, 4]), inner=r.choice([0, .3]), values=False, big=.005), body, cap=300 if tier() == "quick" else 3000)
    return rep.finish()
