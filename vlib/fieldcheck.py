"""Online comparison of a runtime driver (C or Ada) with the field models of codecs.py."""
from .bits import *
from . import codecs, rt


def opname(t):
    return t.split(" ", 1)[0]


class Script:
    """One driver line together with what every operation must answer."""
    __slots__ = ("mode", "cap", "init", "start", "ops", "final", "cls", "kind")

    def __init__(self, mode, cap, init, start, kind):
        self.mode, self.cap, self.init, self.start, self.kind = mode, cap, init, start, kind
        self.ops, self.final, self.cls = [], None, []      # ops: (text, pos after or None when refused, values or None)

    def line(self):
        return "%s %d %s %d ; " % (self.mode, self.cap, tohex(self.init) if self.mode != "I" else "-", self.start) + " ; ".join(o[0] for o in self.ops)


def supported(c, ops):
    return ops is None or (opname(c.enc) in ops and any(opname(d[0]) in ops for d in c.decs))


def pick_dec(r, c, ops, accept_only=False):
    ds = [d for d in c.decs if (ops is None or opname(d[0]) in ops) and (d[1] is not None or not accept_only)]
    return r.choice(ds) if ds else None


def gen_case(r, w, fams, ops):
    for _ in range(50):
        c = codecs.GEN[r.choice(fams)](r, w)
        if supported(c, ops):
            return c
    raise RuntimeError("no supported family")


def s_encode(r, w, fams, ops):
    start = r.randrange(8) + 8 * r.randrange(2)
    k = r.choice([1, 1, 2, 3, 6])
    cs = [gen_case(r, w, fams, ops) for _ in range(k)]
    tot = start + sum(len(c.bits) for c in cs)
    cap = max(1, (tot + 7) // 8) + r.choice([0, 0, 0, 1, 3])
    mode = r.choice("IAA")
    init = "0" * (cap * 8) if mode == "I" else codecs.rb(r, cap * 8)
    s = Script(mode, cap, init, start, "enc")
    pos = start
    for c in cs:
        p0 = pos
        pos += len(c.bits)
        s.ops.append((c.enc, pos, []))
        s.cls.append((c.fam, c.cls, "enc", p0 % 8))
    s.final = init[:start] + "".join(c.bits for c in cs) + init[pos:]
    s.ops.append(("setpos %d" % start, start, []))
    pos = start
    for c in cs:
        d = pick_dec(r, c, ops, True)
        if d is None:
            break
        pos += len(c.bits)
        s.ops.append((d[0], pos, d[1]))
        s.cls.append((c.fam, c.cls, opname(d[0]), pos % 8))
    return s


def s_decode(r, w, fams, ops):
    start = r.randrange(8) + 8 * r.randrange(2)
    c = gen_case(r, w, fams, ops)
    d = pick_dec(r, c, ops)
    if d is None:
        return None
    end = start + len(c.bits)
    cap = max(1, (end + 7) // 8) + r.choice([0, 0, 1, 4])
    j = codecs.rb(r, cap * 8)
    init = j[:start] + c.bits + j[end:]
    s = Script("A", cap, init, start, "dec")
    s.final = init
    s.ops.append((d[0], end if d[1] is not None else None, d[1]))
    s.cls.append((c.fam, c.cls, opname(d[0]), start % 8))
    return s


def s_trunc(r, w, fams, ops):
    c = gen_case(r, w, fams, ops)
    d = pick_dec(r, c, ops)
    if d is None or not c.bits:
        return None
    avail = r.choice([0, len(c.bits) - 1, r.randrange(len(c.bits)), max(0, len(c.bits) - 8)])
    start = (-avail) % 8
    cap = (avail + start) // 8
    if cap == 0:
        cap, start = 1, 8
    init = codecs.rb(r, start) + c.bits[:avail]
    s = Script("A", cap, init, start, "trunc")
    s.final = init
    s.ops.append((d[0], None, None))
    s.cls.append((c.fam, "trunc", opname(d[0]), avail % 8))
    return s


def s_bad(r, w, fams, ops):
    f = [x for x in fams if x in codecs.BAD]
    for _ in range(30):
        x = codecs.BAD[r.choice(f)](r, w)
        if x and (ops is None or opname(x[0]) in ops):
            break
    else:
        return None
    start = r.randrange(8)
    end = start + len(x[1])
    cap = (end + 7) // 8 + r.choice([0, 1, 8])
    j = codecs.rb(r, cap * 8)
    init = j[:start] + x[1] + j[end:]
    s = Script("A", max(cap, 1), init, start, "bad")
    s.final = init
    s.ops.append((x[0], None, None))
    s.cls.append((opname(x[0]), "bad", x[2], start))
    return s


def judge(rep, s, line, tag, final_on_refusal=True):
    text = s.line()
    if line.startswith("CRASH"):
        rep.violation("%s:crash:%s" % (tag, rt.crash_key(line)), "the runtime died: %s" % line, text)
        return False
    got, buf = rt.parse(line)
    for i, (op, pos, vals) in enumerate(s.ops):
        nm = opname(op)
        if i >= len(got):
            rep.violation("%s:%s:stopped" % (tag, nm), "operation %d (%s) not reached: %s" % (i, op[:200], line[-300:]), text)
            return False
        ret, p, v = got[i]
        if pos is None:
            if ret != 0:
                rep.violation("%s:%s:accepted-%s" % (tag, nm, s.kind), "%s must be refused (%s) but answers %s" % (op[:300], s.kind, got[i]), text)
                return False
            if p > s.cap * 8:
                rep.violation("%s:%s:position-past-end" % (tag, nm), "position %d of %d bits after a refusal of %s" % (p, s.cap * 8, op[:300]), text)
                return False
            break
        if ret != 1:
            rep.violation("%s:%s:refused" % (tag, nm), "%s is refused" % op[:300], text)
            return False
        if p != pos:
            rep.violation("%s:%s:position" % (tag, nm), "%s leaves position %d, the model says %d" % (op[:300], p, pos), text)
            return False
        if v != vals:
            rep.violation("%s:%s:value" % (tag, nm), "%s returns %s, the model says %s" % (op[:300], str(v)[:300], str(vals)[:300]), text)
            return False
    if buf != tohex(s.final):
        rep.violation("%s:%s:bits" % (tag, opname(s.ops[0][0])), "buffer %s, the model says %s" % (buf[:400], tohex(s.final)[:400]), text)
        return False
    return True


def batch(rep, r, binary, w, fams, tag, n, ops=None, kinds=("enc", "enc", "dec", "dec", "trunc", "bad"), runner=None):
    fn = {"enc": s_encode, "dec": s_decode, "trunc": s_trunc, "bad": s_bad}
    ss = []
    while len(ss) < n:
        s = fn[r.choice(kinds)](r, w, fams, ops)
        if s:
            ss.append(s)
    lines = [s.line() for s in ss]
    for s, line in zip(ss, (runner or rt.run_lines)(binary, lines)):
        judge(rep, s, line, tag)
        rep.count("scripts_" + s.kind)
        rep.count("operations", len(s.ops))
        for c in s.cls:
            rep.ok((tag,) + c)
    if len(rep.samples) < 4:
        rep.samples += [l[:300] for l in lines[:2]]
