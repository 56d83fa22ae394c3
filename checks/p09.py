"""P09: the decoding routines of the Ada runtime reject bad input through their result, never by raising."""
import re
from vlib.common import *
from vlib.bits import *
from vlib import rt, codecs, adart
from checks.p08 import line, outside, answer, calls, rng, FAMS, S64, U64, RENAME

FAMS = [f for f in FAMS if f in codecs.GEN and f != "uper.real"]
TYPES = {"Integer_8": (-128, 127), "Integer_16": (-2 ** 15, 2 ** 15 - 1), "Integer_32": (-2 ** 31, 2 ** 31 - 1), "Integer": (-2 ** 31, 2 ** 31 - 1),
         "Unsigned_8": (0, 255), "Unsigned_16": (0, 65535), "Unsigned_32": (0, 2 ** 32 - 1), "Asn1Int": S64, "Asn1UInt": U64}


def between(r, lo, hi):
    return codecs.within(r, lo, hi)


def args(r, op, ps):
    """arguments a generated decoder can pass (the preconditions decide what is really within the contract)"""
    a = {}
    tys = {n.lower(): t for n, m, t in ps}
    if "minval" in tys or "maxval" in tys:
        lo, hi = TYPES[tys.get("maxval") or tys["minval"]]
        if "BCD" in op or "UInt_ASCII" in op:
            hi = min(hi, 10 ** r.choice([1, 2, 3, 9, 18, 18, 18]) - 1)
        k = r.randrange(4)
        x, y = (lo, hi) if k == 0 else sorted((between(r, lo, hi), between(r, lo, hi))) if k < 3 else (lo, between(r, lo, hi))
        if k == 2:
            y = min(hi, x + r.choice([0, 1, 2, 5, 6, 9, 100, 300]))
        a["minval"], a["maxval"] = x, y
        a["nbits"] = (y - x).bit_length()
    n = r.choice([1, 2, 3, 5, 7, 8, 9, 13, 16, 17, 24, 31, 32, 33, 48, 63, r.randrange(1, 64)])
    a["sizeinbits"] = a["nsizeinbits"] = n
    a.setdefault("nbits", n)
    if "BCD" in op and "Const" in op and "maxval" in a:
        a["nnibbles"] = max(len(str(a["maxval"])), r.choice([1, 3, 18, 18]))
    else:
        a["nnibbles"] = r.randrange(1, 19)
    a["nchars"] = r.randrange(2, 21)
    t = r.choice(codecs.TERMS)
    a["nullchars"] = a["null_characters"] = t.hex()
    p = codecs.rb(r, r.choice([1, 2, 3, 7, 8, 9, 16, 17, 33]))
    a["pattern"] = a["true_pattern"] = p
    a["false_pattern"] = "".join("10"[int(x)] for x in p)
    if "asn1sizemin" in tys:
        lo = r.choice([0, 0, 1, 2, 5])
        hi = lo + r.choice([0, 1, 2, 3, 5, 10, 100, 200, 300])
        a.update(asn1sizemin=lo, asn1sizemax=hi, nbits=(hi - lo).bit_length())
        a["data"] = "00" * max(1, (hi + 7) // 8 if "BitString" in op else hi)
    elif "data" in tys:
        m = r.choice([1, 2, 5, 9, 30])
        a["data"], a["data_length"] = "00" * m, r.randrange(m + 1)
    if "strval" in tys:
        lo = r.choice([0, 0, 1, 3])
        hi = lo + r.choice([0, 1, 2, 3, 5, 9, 20])
        cs = bytes(sorted(r.sample(range(32, 127), r.choice([1, 2, 3, 5, 10, 26, 33]))))
        a.update(asn1min=lo, asn1max=hi, nlengthdeterminantsizeinbits=(hi - lo).bit_length(), strval="00" * (hi + 1), charset=cs.hex(),
                 ncharsize=(len(cs) - 1).bit_length(), extsizedeterminantfld=r.choice([hi, lo, r.randint(lo, hi)]))
    return a


def content(r, op, n, seedbits):
    """n bits the decoder will read: junk, runs, plausible contents, or an encoding damaged or cut"""
    k = r.randrange(7)
    if k == 0:
        return codecs.rb(r, n)
    if k == 1:
        return ("1" * n) if r.randrange(2) else "0" * n
    if k == 2:
        al = r.choice(["0123456789", "0123456789+-", "+-", "0", "9", " 0a:/"])
        b = bytesbits(("".join(r.choice(al) for _ in range(n // 8 + 1))).encode())
        return b[:n]
    if k == 3:
        return "".join(ub(r.choice([0, 1, 5, 9, 9, 9, 10, 15]) if r.random() < .15 else r.randrange(10), 4) for _ in range(n // 4 + 1))[:n]
    if k == 4:      # a length octet, then anything
        return (ub(r.choice([0, 1, 2, 3, 7, 8, 9, 10, 12, 13, 14, 127, 128, 255]), 8) + (ub(r.choice([0, 0x40, 0x41, 0x42, 0x43, 0x80, 0x81, 0x82, 0x83, 0x90, 0xA0, 0xB0, 0xC1, 0xFF]), 8) if r.randrange(2) else "") +
                codecs.rb(r, n))[:n]
    b = seedbits + codecs.rb(r, n)
    b = b[:n]
    if k == 5 and b:
        for _ in range(r.choice([1, 1, 2, 4])):
            i = r.randrange(min(len(b), max(1, len(seedbits))))
            b = b[:i] + "10"[int(b[i])] + b[i + 1:]
    return b


BADF = ["acn.bcd.const", "acn.bcd.null", "acn.ascii.s.bad", "acn.ascii.u.bad", "uper.ObjectIdentifier", "uper.RelativeOID", "uper.constrained.s", "uper.constrained.u",
        "uper.semi.s", "uper.semi.u", "uper.unconstrained", "acn.pos.var", "acn.two.var", "uper.octets", "uper.bits", "acn.string", "unterminated"]


def wrong(r, P):
    """(procedure, arguments, bits, what) of a complete encoding that denotes no value: decoding has to fail"""
    f = r.choice(BADF)
    if f == "unterminated":     # more characters than any value has, no terminator
        k = r.randrange(2)
        t = r.choice([b"\0", b"\r\n", b"END"])
        if k:
            n = r.randrange(1, 9)
            return "Acn_Dec_String_Ascii_Null_Terminated", dict(null_characters=t.hex(), strval="00" * (n + 1)), bytesbits(codecs.rstr(r, n + 12, bytes(range(65, 69)))), f
        s = r.choice(["UInt", "Int"])
        return "Acn_Dec_%s_ASCII_VarSize_NullTerminated" % s, dict(nullchars=t.hex()), bytesbits(((b"+" if s == "Int" else b"") + b"0" * 10 + codecs.rstr(r, 9, b"0123456789")).ljust(45, b"7")), f
    x = codecs.BAD[f](r, 64)
    if not x:
        return None
    t = x[0].split()
    op = t[0].replace("_SInt_", "_Int_").replace("_mult", "")
    if "String" not in op:
        op = op.replace("BitStream_Decode", "UPER_Dec_")
    if op not in P:
        return None
    k = {}
    if f.startswith("uper.constrained"):
        k = dict(minval=t[1], maxval=t[2], nbits=(int(t[2]) - int(t[1])).bit_length())
    elif f.startswith("uper.semi"):
        k = dict(minval=t[1])
    elif f in ("uper.octets", "uper.bits"):
        lo, hi = int(t[1]), int(t[2])
        if hi > 3000:
            return None
        k = dict(asn1sizemin=lo, asn1sizemax=hi, nbits=(hi - lo).bit_length(), data="00" * max(1, (hi + 7) // 8 if f == "uper.bits" else hi))
    elif f == "acn.string":
        k = dict(strval="00" * (int(t[1]) + 1))
        if "Null" in op:
            k["null_characters"] = t[2] if "_mult" in t[0] else "%02x" % int(t[2])
        elif "CharIndex" in op:
            k.update(charset=t[2], ncharsize=(len(t[2]) // 2 - 1).bit_length(), extsizedeterminantfld=t[-1])
        else:
            k.update(asn1min=t[2], asn1max=t[1], nlengthdeterminantsizeinbits=(int(t[1]) - int(t[2])).bit_length())
    elif not f.startswith("uper."):
        lo, hi = rng(op) or (S64 if "_Int_ASCII" in op or "Two" in op else U64)
        if "BCD" in op or "UInt_ASCII" in op:
            hi = min(hi, 10 ** (min(18, int(t[1])) if "BCD_Const" in op else 18) - 1)
        k = dict(minval=lo, maxval=hi)
        if len(t) > 1:
            k.update(nnibbles=t[1], nchars=t[1], nullchars=t[1])
    return op, k, x[1], f


def work(rep, r, i, adrv, P, where, n):
    decs = [k for k in P if re.search(r"(?i)_dec_|_decode|_Decode", k)]
    al, meta = [], []
    while len(al) < n:
        if r.randrange(4) == 0:
            x = wrong(r, P)
            if x:
                op, a, b, what = x
                start = r.randrange(8)
                room = max(1, (start + len(b) + 7) // 8) + r.choice([0, 1, 12, 40, 430])
                buf = codecs.rb(r, start) + b
                buf += codecs.rb(r, room * 8 - len(buf)) if what != "unterminated" else "0" * (-len(buf) % 8) + "01110111" * ((room * 8 - len(buf)) // 8)
                al.append(line(P, buf, start, op, a))
                meta.append((op, start, room, a, buf, what))
            continue
        op = r.choice(decs)
        sb_ = ""
        a = args(r, op, P[op])
        for _ in range(3):
            f = r.choice(FAMS)
            if f == "uper.real":
                continue
            c = codecs.GEN[f](r, 64)
            x = calls(r, c, P)
            hit = [d for d in (x[1] if x else []) if d[0] == op]
            if hit:
                sb_ = c.bits
                a.update(hit[0][1])
                break
        else:
            c = codecs.GEN[r.choice(FAMS)](r, 64)
            sb_ = c.bits
        start = r.randrange(8) + 8 * r.randrange(2)
        need = r.choice([1, 1, 2, 3, 8, 9, 10, 11, 14, 20, 24, 30, 45, 70, 500])
        room = (start + 7) // 8 + need
        junk = codecs.rb(r, start)
        buf = junk + content(r, op, room * 8 - start, sb_)
        ln = line(P, buf, start, op, a)
        al.append(ln)
        meta.append((op, start, room, a, buf, None))
    for m, ln, x in zip(meta, al, rt.run_lines(adrv, al)):
        op, start, room, a, buf0, what = m
        if x.startswith("X "):
            if outside(x, where, op):
                rep.count("outside_contract")
                continue
            rep.violation("raises:%s:%s" % (op, re.sub(r"[^A-Za-z_]+", "-", x.split("-", 1)[0])[:60]), "%s raises: %s" % (op, x[:400]), ln)
            continue
        if x.startswith("CRASH"):
            rep.violation("crash:%s" % op, "the Ada runtime died: %s" % x[:300], ln)
            continue
        ret, pos, got, buf = answer(x)
        if not start <= pos <= room * 8:
            rep.violation("position:%s" % op, "position %d in a stream of %d bits, started at %d" % (pos, room * 8, start), ln)
        if buf != tohex(buf0):
            rep.violation("writes:%s" % op, "decoding changed the stream", ln)
        if ret and "minval" in [p[0].lower() for p in P[op]] and got and re.match(r"-?\d+$", got[0]):
            ps = [p[0].lower() for p in P[op]]
            if int(got[0]) < int(a["minval"]) or "maxval" in ps and int(got[0]) > int(a["maxval"]):
                rep.violation("bounds:%s" % op, "accepted %s outside %s .. %s" % (got[0], a["minval"], a["maxval"]), ln)
        if ret and "data_length" in [p[0].lower() for p in P[op] if p[1] == "out"]:
            if not int(a["asn1sizemin"]) <= int(got[1]) <= int(a["asn1sizemax"]):
                rep.violation("bounds:%s" % op, "accepted %s items, %s .. %s allowed" % (got[1], a["asn1sizemin"], a["asn1sizemax"]), ln)
        if ret and "Object" in op or "Relative" in op:
            k = int(got[0].split(":")[0]) if got else 0
            if ret and not 0 <= k <= 20:
                rep.violation("bounds:%s" % op, "accepted %d arcs" % k, ln)
        if ret and what:
            rep.violation("accepted:%s" % op, "accepts an encoding that denotes no value (%s)" % what, ln)
        if what:
            rep.count("wrong_encodings")
        rep.count("accepted" if ret else "refused")
        rep.ok((op, ret, min(pos - start, 80)))
    if len(rep.samples) < 4:
        rep.samples += [x[:300] for x in al[:2]]


def main(rep):
    rep.rule = "distinct (decoding procedure of the Ada runtime, verdict, bits consumed up to 80), each within the procedure's contract"
    rep.assumptions = ["a call its own precondition excludes (evaluated at run time) is counted, not judged; preconditions of the procedures it calls, postconditions, assertions and run-time checks must hold"]
    with Scratch("p09") as d:
        adrv, names = adart.build(os.path.join(d, "ada"))
        P = {k: v for k, v in adart.procs().items() if k in names}
        shards(rep, work, NCPU, (adrv, P, adart.spans(), int(os.environ.get("N09", 15000 if tier() == "quick" else 400000))))
    rep.counters["procedures_exercised"] = len({c[0] for c in rep.distinct})
    return rep.finish()
