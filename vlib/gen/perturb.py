"""Values next to valid ones: one node of a valid value is replaced by another representable (or unrepresentable) content."""
from .model import *
from . import rand, cdrv


def nodes(t, v, path=(), out=None):
    """[(path, type, value)] of every node of a value"""
    if out is None:
        out = []
    b, _ = base(t)
    out.append((path, t, v))
    if b.kind in ("SEQ", "SET"):
        for c in b.children:
            if c.acn is None and c.name in v:
                nodes(c.t, v[c.name], path + (c.name,), out)
    elif b.kind == "CHOICE":
        c = [c for c in b.children if c.name == v[0]][0]
        nodes(c.t, v[1], path + (1,), out)
    elif b.kind in ("SEQOF", "SETOF"):
        for i in range(min(len(v), 4)) if len(v) <= 4 else sorted({0, 1, len(v) // 2, len(v) - 1}):
            nodes(b.elem, v[i], path + (i,), out)
    elif b.kind in ("OCTCONT", "BITCONT"):
        nodes(T("REF", ref=b.ref), v, path, out)
    return out


def put(t, v, path, new):
    if not path:
        return new
    k, rest = path[0], path[1:]
    if isinstance(v, dict):
        d = dict(v); d[k] = put(None, v[k], rest, new)
        return d
    if isinstance(v, tuple):
        return (v[0], put(None, v[1], rest, new))
    l = list(v); l[k] = put(None, v[k], rest, new)
    return l


class Raw:
    """Driver tokens that stand for a value no abstract value corresponds to."""
    def __init__(self, tok, why):
        self.tok, self.why = tok, why


def tokens(t, v, path=(), raw=None):
    """tokens of v with the node at path replaced by raw"""
    if raw is None:
        return cdrv.tokens(t, v)
    mark = "\1RAW\1"
    # emit with a marker in place of the node
    def emit(t, v, path, o):
        b, _ = base(t)
        if not path:
            o.append(raw.tok); return
        if b.kind in ("SEQ", "SET"):
            for c in b.children:
                if c.acn is not None:
                    continue
                if c.opt:
                    o.append("1" if c.name in v else "0")
                    if c.name not in v:
                        if c.opt == "DEFAULT":
                            o.append(cdrv.tokens(c.t, c.default))
                        continue
                emit(c.t, v[c.name], path[1:], o) if c.name == path[0] else o.append(cdrv.tokens(c.t, v[c.name]))
        elif b.kind == "CHOICE":
            i = [c.name for c in b.children].index(v[0])
            o.append(str(i + 1)); emit(b.children[i].t, v[1], path[1:], o)
        elif b.kind in ("SEQOF", "SETOF"):
            o.append(str(len(v)))
            for i, x in enumerate(v):
                emit(b.elem, x, path[1:], o) if i == path[0] else o.append(cdrv.tokens(b.elem, x))
        elif b.kind in ("OCTCONT", "BITCONT"):
            emit(T("REF", ref=b.ref), v, path, o)
        else:
            raise ValueError(b.kind)
    o = []
    emit(t, v, path, o)
    return " ".join(x for x in o if x)


def alt(g, t, v):
    """another content for one node: an abstract value or Raw; None when there is none"""
    r = g.r
    b, cons = base(t)
    k = b.kind
    w = g.p.wordbits
    if k == "INT":
        c = rand.int_candidates(t, w)
        lo, hi = int_range(t)
        x = r.choice(c)
        if r.random() < .3:
            z = (1 << w) - 1 if is_unsigned(t) else (1 << (w - 1)) - 1
            a = 0 if is_unsigned(t) else -(1 << (w - 1))
            x = r.choice([r.randint(max(a, (lo if lo is not None else a) - 3), min(z, (hi if hi is not None else z) + 3)), r.randint(a, z)])
        return x
    if k == "ENUM":
        vs = [x[1] for x in b.items]
        x = r.choice([r.choice(vs), r.choice(vs) + 1, r.choice(vs) - 1, max(vs) + 1, -1, 0x7fffffff])
        return x
    if k == "REAL":
        import math
        out = [0.0, -0.0, float("inf"), float("-inf"), float("nan"), 1e300, -1e300, 5e-324]
        def walk(c):
            if c[0] == "range":
                for x in c[1:3]:
                    if x is not None:
                        out.extend([x, math.nextafter(x, math.inf), math.nextafter(x, -math.inf), x + 1, x - 1])
            elif c[0] == "val":
                out.extend([c[1], math.nextafter(c[1], math.inf)])
            else:
                for y in c[1:]:
                    if isinstance(y, tuple):
                        walk(y)
        for c in cons:
            walk(c)
        return f2b(r.choice(out))
    if k == "STR":
        lo, hi = size_range(t)
        if r.random() < .45 and v:
            i = r.choice([0, len(v) - 1, r.randrange(len(v))])
            al = [ord(c) for c in alphabet(t)] or [65]
            c = r.choice([min(al) - 1, max(al) + 1, r.choice(al) + 1, r.choice(al) - 1, 32, 127, 128, 255, 48, 58, 65])
            return v[:i] + chr(min(127, max(1, c))) + v[i + 1:]      # recorded finding: characters above 127
        n = r.choice([max(0, lo - 1), lo, hi, r.randint(0, hi), min(len(v), hi)])
        al = [c for c in alphabet(t) if c != "\0"] or ["A"]
        return "".join(r.choice(al) for _ in range(n))
    if k in ("OCT", "BIT"):
        lo, hi = size_range(t)
        fixed = fixed_size(t)
        if fixed or r.random() < .3:
            n = len(v)
        else:
            if r.random() < .3 and hi < 100000:
                n = r.choice([hi + 1, hi + 7, hi + 8, hi * 2 + 3, -1, -(1 << 31), (1 << 31) - 1])
                return Raw("%d:%s" % (n, "00" * min((hi if k == "OCT" else (hi + 7) // 8), 64)), "count %d of at most %d" % (n, hi))
            n = r.choice([max(0, lo - 1), lo, hi, r.randint(0, hi), r.randint(lo, hi)])
        if k == "OCT":
            return r.randbytes(n)
        return "".join(r.choice("01") for _ in range(n))
    if k in ("SEQOF", "SETOF"):
        lo, hi = size_range(t)
        if fixed_size(t):
            return None
        if r.random() < .3 and hi < 100000:
            n = r.choice([hi + 1, hi + 2, hi * 2 + 3, -1, -(1 << 31), (1 << 31) - 1])
            return Raw("%d/%d %s" % (n, len(v), " ".join(x for x in (cdrv.tokens(b.elem, x) for x in v) if x)), "count %d of at most %d" % (n, hi))
        n = r.choice([max(0, lo - 1), lo, hi, r.randint(0, hi)])
        if n > 300 or n > len(v) and not v:
            n = min(n, len(v))
        return (list(v) * (n // max(1, len(v)) + 1))[:n]
    if k in ("SEQ", "SET"):
        opt = [c for c in b.children if c.opt == "OPTIONAL" and c.acn is None]
        if not opt:
            return None
        c = r.choice(opt)
        d = dict(v)
        if c.name in d:
            del d[c.name]
        else:
            d[c.name] = rand.value_of(g, c.t)
        return d
    if k == "CHOICE":
        n = len(b.children)
        if r.random() < .5:
            j = r.choice([0, n + 1, -1, n + 1000, 0x7fffffff])
            return Raw(str(j), "alternative %d of %d" % (j, n))
        c = r.choice(b.children)
        return (c.name, rand.value_of(g, c.t))
    if k in ("OID", "ROID"):
        if r.random() < .5:
            n = r.choice([-1, 21, 22, 1000, -(1 << 31)])
            return Raw(" ".join([str(n)] + (["1"] * 20 if n > 0 else [])), "count %d" % n)
        if k == "OID":
            x = list(v)
            j = r.randrange(3)
            if j == 0:
                x[0] = r.choice([2, 3, 1 << 31])
            elif j == 1:
                x[1] = r.choice([39, 40, 1 << 31])
            else:
                x = x[:r.choice([0, 1, 2, 3])]
            return tuple(x)
        return tuple(v[:r.choice([0, 1, 2])])
    return None


def fixed_size(t):
    """does the C type have no count? (the outermost type with a single possible size)"""
    while t.kind == "REF":
        t = t.ref.t
    lo, hi = size_range(t)
    return lo == hi


def ok_oid(t, v):
    b, _ = base(t)
    if b.kind == "OID":
        return 2 <= len(v) <= 20 and v[0] <= 2 and v[1] <= 39
    if b.kind == "ROID":
        return 1 <= len(v) <= 20
    return True


def perturb(g, t, v):
    """-> (tokens, is it a valid value, abstract value or None, what was done) or None"""
    ns = nodes(t, v)
    path, nt, nv = g.r.choice(ns)
    try:
        x = alt(g, nt, nv)
    except RuntimeError:
        return None
    if x is None:
        return None
    kind = base(nt)[0].kind
    if isinstance(x, Raw):
        return tokens(t, v, path, x), False, None, kind + " " + x.why
    v2 = put(t, v, path, x)
    return cdrv.tokens(t, v2), valid(t, v2) and ok_oid(nt, x), v2, kind


def encodable(t, v):
    """can uPER carry the value (PER-visible bounds only)?"""
    for _, nt, nv in nodes(t, v):
        b, _c = base(nt)
        k = b.kind
        if k == "INT":
            lo, hi = int_range(nt)
            if lo is not None and nv < lo or hi is not None and nv > hi:
                return False
        elif k == "ENUM":
            if nv not in [x[1] for x in b.items]:
                return False
        elif k in ("STR", "OCT", "BIT", "SEQOF", "SETOF"):
            lo, hi = size_range(nt)
            if not (lo or 0) <= len(nv) <= hi:
                return False
            if k == "STR" and any(c not in alphabet(nt) for c in nv):
                return False
        elif k in ("OID", "ROID"):
            if not ok_oid(nt, nv):
                return False
    return True
