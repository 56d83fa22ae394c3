"""P13: generated C decoders survive arbitrary input."""
from vlib.common import *
from vlib import rt
from vlib.gen.campaign import *
from vlib.gen.model import *
from vlib.gen import acn
from checks.p10 import enc_fields


def to_bits(data):
    return "".join(format(x, "08b") for x in data)


def mutate(r, bits, others):
    """hostile variants of an encoding (a string of bits), as hex"""
    b = list(bits)
    x = r.random()
    if x > .8:
        # a count far too large (or negative) with plenty of input behind it, so that the input does not run out first
        for _ in range(r.choice([1, 1, 2])):
            if b:
                k = r.randrange(0, len(b) + 7, 8) if r.random() < .5 else r.randrange(len(b))
                if r.random() < .5:
                    k = min(k, r.choice([0, 8, 16, 32]))
                b[k:k + 8] = format(r.choice([0xff, 0x7f, 0x80, 0x40, 0x20, 0x10, r.randrange(256)]), "08b")
        fill = r.choice(["0", "1", "01", None])
        n = 8 * r.choice([16, 64, 200, 700])
        b += list((fill * n)[:n] if fill else to_bits(r.randbytes(n // 8)))
        return to_hex("".join(b))
    if x < .15:
        return r.randbytes(r.choice([0, 1, 2, 3, 5, 9, 20, len(bits) // 8 + 3])).hex() or "-"
    if x < .3 and b:
        b = b[:r.randrange(len(b))]
    elif x < .4:
        b += [r.choice("01") for _ in range(r.choice([1, 8, 40]))]
    elif x < .5 and others:
        o = r.choice(others)
        k = r.randint(0, len(b))
        b = b[:k] + list(o[k:])
    elif x < .6 and b:
        # a byte that looks like a count, a fragment header or a long length
        k = r.randrange(0, max(1, len(b) // 8)) * 8 if r.random() < .5 else r.randrange(len(b))
        b[k:k + 8] = format(r.choice([0xff, 0x7f, 0x80, 0xc1, 0xc4, 0x81, 0xbf, 0]), "08b")
    elif x < .7 and b:
        k = r.randrange(len(b)); n = r.choice([1, 3, 8])
        if r.random() < .5:
            del b[k:k + n]
        else:
            b[k:k] = [r.choice("01") for _ in range(n)]
    for _ in range(r.choice([0, 1, 1, 2, 5])):
        if b:
            k = r.randrange(min(len(b), r.choice([8, 24, len(b)])))
            b[k] = "1" if b[k] == "0" else "0"
    return to_hex("".join(b))


def judge(rep, case, enc, a, line, o):
    key = "hostile:%s:%s:" % (enc, base(a.t)[0].kind)
    if o.startswith("CRASH"):
        rep.violation(key + "crash:" + rt.crash_key(o), o, case.replay(line)); return None
    m = re.match(r"d(\d+),(-?\d+),(-?\d+)(?: \|(.*?) \| (.*))?$", o)
    if not m:
        raise CheckError("driver answered %r to %r" % (o[:300], line[:300]))
    ret, err, pos = map(int, m.groups()[:3])
    hx = line.split(" ")[3]
    n = 0 if hx == "-" else len(hx) * 4
    if not ret:
        if err == 0:
            rep.violation(key + "error-code", "decoding failed with error code 0: " + o, case.replay(line)); return None
        return "refused"
    if err != 0:
        rep.violation(key + "error-code", "decoding succeeded with error code %d" % err, case.replay(line)); return None
    if not 0 <= pos <= n:
        rep.violation(key + "position", "success at bit %d of an input of %d bits" % (pos, n), case.replay(line)); return None
    if "!" in m.group(4) and re.search(r"!\w+=|!( |$)", m.group(4)):
        rep.violation(key + "counts", "decoded value has counts outside its arrays: " + m.group(4)[:300], case.replay(line)); return None
    if not m.group(5).startswith("v1,"):
        rep.violation(key + "invalid", "decoding delivered a value its own validity check refuses: " + o[:400], case.replay(line)); return None
    e0 = re.match(r"v1,-?\d+ e0,(\d+)", m.group(5))
    if e0 and e0.group(1) in case.uninit:       # a determinant that no component of the decoded value determines: known not to encode
        return "undetermined"
    r = re.match(r"v1,-?\d+ e1,-?\d+,(\d+),\d+ (\S+) r1,-?\d+,(\d+) \|(.*)$", m.group(5))
    if not r or r.group(4).split() != m.group(4).split():
        rep.violation(key + "again", "the decoded value does not survive encoding and decoding: " + o[:600], case.replay(line)); return None
    return "accepted"


def attack(rep, case, enc, per=60, values=6):
    """hostile inputs for every type of a built case; enc is the driver's letter of the encoding"""
    r, g = case.r, case.g
    L, M = [], []
    case.uninit = set()
    for f in os.listdir(os.path.join(case.d, "out")):
        if f.endswith(".h"):
            case.uninit |= set(re.findall(r"#define\s+ERR_ACN_ENCODE_\w*_UNINITIALIZED\s+(\d+)", open(os.path.join(case.d, "out", f), errors="replace").read()))
    for j, a in enumerate(g.types):
        if a.params:
            continue
        vs = []
        for _ in range(values):
            try:
                v = rand.value_of(case.gen, a.t)
                vs.append(acn.fix(case.gen, a.t, v) if enc == "a" else v)
            except (RuntimeError, acn.Skip, acn.Undetermined):
                pass
        E = ["%d E%s 0 0 %s" % (j, enc, cdrv.tokens(a.t, v)) for v in vs]
        seeds = []
        for o in rt.run_lines(case.binary, E) if E else []:
            f = None if o.startswith(("CRASH", "SMALL")) else enc_fields(o)
            if f and f[1] and f[2] <= 40000:
                seeds.append(bits_of(f[4], f[2]))
        for _ in range(per):
            h = mutate(r, r.choice(seeds) if seeds else "", seeds)
            j1, j2 = r.sample([0, 0x5a, 0xff], 2)
            L.append("%d D%s %d %s" % (j, enc, j1, h)); M.append((j, a))
            L.append("%d D%s %d %s" % (j, enc, j2, h)); M.append((j, a))
    outs = rt.run_lines(case.binary, L) if L else []
    for k in range(0, len(L), 2):
        a = M[k][1]
        v = judge(rep, case, enc, a, L[k], outs[k])
        if v is None:
            continue
        if outs[k + 1] != outs[k]:
            rep.violation("hostile:%s:%s:stale" % (enc, base(a.t)[0].kind), "decoding depends on the previous contents of the destination: %s / %s" % (outs[k][:300], outs[k + 1][:300]), case.replay(L[k])); continue
        rep.ok((enc, v, klass(a.t))); rep.count(enc + "_" + v)
    if len(rep.samples) < 3 and L:
        rep.samples += [case.asn1()[:400], L[0][:300]]


def body(rep, case, pool, rtls):
    if not build_case(rep, case, pool, rtls[0], BASE_OPTS, dict(encs=("u",), equal=True, init=True)):
        return
    attack(rep, case, "u")


def body_acn(rep, case, pool, rtls):
    acn.Decor(case.gen, p_det=case.r.choice([.5, .8, 1.0])).run()
    if not build_case(rep, case, pool, rtls[0], BASE_OPTS + ["-ACN"], dict(encs=("a",)), acn=acn.acn_text(case.g)):
        return
    attack(rep, case, "a")


def main(rep):
    rep.rule = "distinct (encoding, accepted or refused, type kind with the shape of its constraints or component kinds) observed on hostile input; every input decoded twice over different garbage in the destination"
    rep.assumptions = ["the bit stream is attached to exactly the bytes received"]
    prof = lambda r: rand.Prof(rich=r.choice([.1, .4, .7]), depth=r.choice([2, 3, 4]), values=False, big=.005)
    campaign(rep, 200 if tier() == "quick" else 2400, prof, body, cap=300 if tier() == "quick" else 3000)
    campaign(rep, 120 if tier() == "quick" else 1600, prof, body_acn, cap=300 if tier() == "quick" else 3000, tag="acn")
    return rep.finish()
