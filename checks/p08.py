"""P08: the Ada runtime and the C runtime produce the same wire bits and read each other's bits back."""
import re
import struct
from vlib.common import *
from vlib.bits import *
from vlib import rt, rtgen, codecs, fieldcheck, adart
from vlib.codecs import dhex

W = {"Int8": (-128, 127), "Int16": (-2 ** 15, 2 ** 15 - 1), "Int32": (-2 ** 31, 2 ** 31 - 1), "UInt8": (0, 255), "UInt16": (0, 65535), "UInt32": (0, 2 ** 32 - 1)}
S64, U64 = (-2 ** 63, 2 ** 63 - 1), (0, 2 ** 64 - 1)
FAMS = ["uper.constrained.s", "uper.constrained.u", "uper.semi.s", "uper.semi.u", "uper.unconstrained", "uper.bool", "uper.octets", "uper.bits",
        "uper.ObjectIdentifier", "uper.RelativeOID", "acn.pos.const", "acn.two.const", "acn.pos.endian", "acn.two.endian", "acn.pos.var", "acn.two.var",
        "acn.bcd.const", "acn.bcd.null", "acn.ascii.s.const", "acn.ascii.s.null", "acn.ascii.u.const", "acn.ascii.u.null", "acn.ascii.s.var", "acn.ascii.u.var",
        "acn.real", "acn.bool", "uper.real", "acn.string.ascii", "acn.string.charindex", "acn.string.null", "acn.null"]
RENAME = {"BitStream_EncodeConstraintWholeNumber": "UPER_Enc_ConstraintWholeNumber", "BitStream_EncodeConstraintPosWholeNumber": "UPER_Enc_ConstraintPosWholeNumber",
          "BitStream_EncodeSemiConstraintWholeNumber": "UPER_Enc_SemiConstraintWholeNumber",
          "BitStream_EncodeSemiConstraintPosWholeNumber": "UPER_Enc_SemiConstraintPosWholeNumber",
          "BitStream_EncodeUnConstraintWholeNumber": "UPER_Enc_UnConstraintWholeNumber", "BitStream_EncodeReal": "UPER_Enc_Real"}


def rng(op):
    m = re.search(r"(U?Int\d+)$", op)
    return W[m.group(1)] if m else None


def calls(r, c, P):
    """-> (encoding call, [(decoding call, values)]) on the Ada side of a field case; a call is (procedure, {parameter: text})"""
    t = c.enc.split()
    f = c.fam
    if f.startswith("uper.constrained"):
        v, a, b = map(int, t[1:4])
        n = (b - a).bit_length()
        k = dict(minval=a, maxval=b, nbits=n)
        ds = [(d[0].split()[0].replace("BitStream_Decode", "UPER_Dec_"), k, [str(v)]) for d in c.decs]
        if f.endswith(".s") and -2 ** 31 <= a and b < 2 ** 31:
            ds.append(("UPER_Dec_ConstraintWholeNumberInt", k, [str(v)]))
        return (RENAME[t[0]], dict(k, intval=v)), ds
    if f.startswith("uper.semi"):
        k = dict(minval=int(t[2]))
        return (RENAME[t[0]], dict(k, intval=t[1])), [(d[0].split()[0].replace("BitStream_Decode", "UPER_Dec_"), k, [t[1]]) for d in c.decs]
    if f == "uper.unconstrained":
        v = int(t[1])
        return (RENAME[t[0]], dict(intval=v)), [("UPER_Dec_UnConstraintWholeNumber", {}, [t[1]]), ("UPER_Dec_UnConstraintWholeNumberMax", dict(maxval=r.choice([v, 2 ** 63 - 1])), [t[1]])]
    if f == "uper.bool":
        return ("UPER_Enc_Boolean", dict(val=t[1])), [("UPER_Dec_boolean", {}, [t[1]])]
    if f == "uper.real":
        d = t[1]
        ds = [("UPER_Dec_Real", {}, [d])]
        x = struct.unpack(">d", bytes.fromhex(d))[0]
        if abs(x) < 3e38 and struct.unpack(">f", struct.pack(">f", x))[0] == x:
            ds.append(("UPER_Dec_Real_fp32", {}, [struct.pack(">f", x).hex()]))
        return ("UPER_Enc_Real", dict(realval=d)), ds
    if f in ("uper.octets", "uper.bits"):
        lo, hi = int(t[1]), int(t[2])
        bits = f == "uper.bits"
        n = int(t[3]) if bits else (0 if t[3] == "-" else len(t[3]) // 2)
        h = t[4] if bits else t[3]
        if n == 0 or hi > 70000:
            return None
        nm = "BitString" if bits else "OctetString"
        k = dict(nbits=(hi - lo).bit_length(), asn1sizemin=lo, asn1sizemax=hi)
        room = (hi + 7) // 8 if bits else hi
        if bits:
            b = bytesbits(bytes.fromhex(h))[:n]
            h = tohex(b + "0" * (-n % 8))
        exp = [h, str(n)]
        return ("BitStream_Encode" + nm, dict(k, data=h, data_length=n)), [("BitStream_Decode" + nm, dict(k, data="00" * room), exp)]
    if f in ("uper.ObjectIdentifier", "uper.RelativeOID"):
        return (t[0], dict(val=":".join(t[2:]))), [(t[0].replace("encode", "decode"), {}, ["%s:%s" % (t[1], ":".join(t[2:]))])]
    if f == "acn.real":
        return (t[0], dict(realval=t[1], val=t[1])), [(d[0], {}, d[1]) for d in c.decs
                                                             if "fp32" not in d[0] or "ff0000000" not in t[1]]     # no infinities in an Ada Float
    if f.startswith("acn.bool"):
        T = c.decs[0][0].split()
        n = int(t[1])
        pat = ub(int(T[1], 16) >> (-n % 8), n)
        if f == "acn.bool.other":
            return None
        v = "1" if f.endswith("true") else "0"
        inv = "".join("10"[int(x)] for x in pat)
        k = r.randrange(3)
        nm, a = [("true_pattern", dict(pattern=pat)), ("false_pattern", dict(pattern=inv)), ("true_false_pattern", dict(true_pattern=pat, false_pattern=inv))][k]
        return ("Acn_Enc_Boolean_" + nm, dict(a, boolval=v)), [("Acn_Dec_Boolean_" + nm, a, [v])]
    if f == "acn.null":
        k = dict(pattern=c.bits, encval=0)
        return (r.choice(["Acn_Enc_NullType_pattern", "Acn_Enc_NullType_pattern2"]), k), [("Acn_Dec_NullType_pattern", k, ["0"]), ("Acn_Dec_NullType_pattern2", k, [])]
    if f.startswith("acn.string"):
        mx, s = int(t[1]), "" if t[-1] == "-" else t[-1]
        if any(x > 127 for x in bytes.fromhex(s)):
            return None
        full = s + "00" * (mx + 1 - len(s) // 2)
        k = dict(strval=full, extsizedeterminantfld=len(s) // 2)
        if ".null" in f:
            k["null_characters"] = "%02x" % int(t[2]) if f.endswith("null1") else t[2]
        if "charindex" in f:
            k.update(charset=t[2], ncharsize=(len(t[2]) // 2 - 1).bit_length())
        if f.endswith(".int"):
            mn = int(t[-2])
            k.update(asn1min=mn, asn1max=mx, nlengthdeterminantsizeinbits=(mx - mn).bit_length())
        e = t[0].replace("_mult", "")
        return (e, k), [(e.replace("_Enc_", "_Dec_"), dict(k, strval="7a" * (mx + 1)), [full])]
    # ACN integers
    v = int(t[1])
    enc = t[0].replace("_SInt_", "_Int_")
    k = {}
    if len(t) > 2:
        if "Null" in t[0]:
            k = dict(nullchars=t[2])
        else:
            k = dict(sizeinbits=t[2], nsizeinbits=t[2], nbits=t[2], nnibbles=t[2], nchars=t[2])
    neg = "Two" in f or ".two" in f or "SInt" in t[0]
    out = []
    for d in c.decs:
        if d[1] is None:
            continue
        op = d[0].split()[0].replace("_SInt_", "_Int_")
        lo, hi = rng(op) or (S64 if neg else U64)
        if "BCD" in op or "UInt_ASCII" in op:
            hi = min(hi, 10 ** (int(t[2]) if "BCD_Const" in op and int(t[2]) < 18 else 18) - 1)
        if not lo <= v <= hi:
            continue
        lo, hi = r.choice([(lo, hi), (lo, v), (v, hi), (v, v), (lo, hi)])
        out.append((op, dict(k, minval=lo, maxval=hi), [str(v)]))
    return (enc, dict(k, intval=v)), out


def line(P, buf, start, op, args):
    """the driver line of a call, None when the runtime has no such procedure"""
    if op not in P:
        return None
    toks = []
    for n, mode, ty in P[op]:
        if mode != "out" and ty != "Bitstream":
            if n.lower() not in args:
                raise CheckError("no value for parameter %s of %s" % (n, op))
            toks.append(str(args[n.lower()]))
    return "%s %d %s %s" % (tohex(buf), start, op, " ".join(toks))


def outside(msg, where, op):
    """True when the message says that the precondition of op itself is false"""
    m = re.match(r"X \S+ failed precondition from (\S+?):(\d+)", msg)
    if not m:
        return False
    f, a, b = where[op]
    return os.path.basename(m.group(1)) == f and a <= int(m.group(2)) <= b


def answer(a):
    m = re.match(r"r([01]) p(\d+)((?: [^|]*)?) ?\|([0-9a-f]*)$", a)
    if not m:
        raise CheckError("unparsable driver output: " + a[:200])
    return int(m.group(1)), int(m.group(2)), [x.lstrip("#") for x in m.group(3).split()], m.group(4)


def cases(r, n, cdrv):
    out = []
    while len(out) < n:
        f = r.choice(FAMS)
        if f == "uper.real":
            d = r.choice([codecs.rf64, codecs.rf64, codecs.rf32])(r)
            c = codecs.Case(f, "BitStream_EncodeReal " + dhex(d), "", [("BitStream_DecodeReal", [dhex(d)])], d > 0)
        elif f == "acn.null":
            nb = r.randrange(1, 41)
            b = codecs.rb(r, nb)
            c = codecs.Case(f, "BitStream_AppendBits %d %s" % (nb, tohex(b)), b, [("BitStream_ReadBitPattern %s %d" % (tohex(b), nb), ["1"])], nb)
        else:
            c = codecs.GEN[f](r, 64)
        out.append(c)
    # the octets of a REAL are whatever the C runtime chooses (P04 decides whether they are right)
    reals = [c for c in out if c.fam == "uper.real"]
    for c, a in zip(reals, rt.run_lines(cdrv, ["I 32 - 0 ; " + c.enc for c in reals])):
        ops, buf = rt.parse(a)
        c.bits = bytesbits(bytes.fromhex(buf))[:ops[0][1]]
    return out


def work(rep, r, i, cdrv, adrv, P, where, n):
    cs = cases(r, n, cdrv)
    al, meta = [], []
    cl, cm = [], []
    for c in cs:
        x = calls(r, c, P)
        if x is None:
            continue
        (eop, eargs), ds = x
        if eop not in P:
            continue
        start = r.randrange(8) + 8 * r.randrange(2)
        end = start + len(c.bits)
        room = max(1, (end + 7) // 8) + r.choice([0, 1, 12, 40, 400]) + (0 if "OID" not in eop and "Object" not in eop else 420)
        junk = codecs.rb(r, room * 8)
        want = junk[:start] + c.bits + junk[end:]
        # C: encode over the same junk, decode
        s = fieldcheck.Script("A", room, junk, start, "enc")
        s.ops = [(c.enc, end, []), ("setpos %d" % start, start, [])]
        d = fieldcheck.pick_dec(r, c, None, True)
        if d:
            s.ops.append((d[0], end, d[1]))
        s.final = want
        cl.append(s.line())
        cm.append(s)
        al.append(line(P, junk[:start] + "0" * (room * 8 - start), start, eop, eargs))     # a fresh Ada stream is all zero
        meta.append(("enc", c, eop, start, end, [], junk[:start] + c.bits + "0" * (room * 8 - end), room))
        if ds:
            op, args, vals = r.choice(ds)
            ln = line(P, want, start, op, args)
            if ln:
                al.append(ln)
                meta.append(("dec", c, op, start, end, vals, want, room))
    for s, a in zip(cm, rt.run_lines(cdrv, cl)):
        rep.count("c_scripts")
        fieldcheck.judge(rep, s, a, "c")
    for m, ln, a in zip(meta, al, rt.run_lines(adrv, al)):
        kind, c, op, start, end, vals, want, room = m
        if a.startswith("X "):
            if outside(a, where, op):
                rep.count("outside_contract")
                if os.environ.get("V08"): rep.count("OUT " + op)
                continue
            rep.violation("ada:%s:raises" % op, "%s raises: %s" % (op, a[:300]), ln)
            continue
        if a.startswith("CRASH"):
            rep.violation("ada:%s:crash" % op, "the Ada runtime died: %s" % a[:300], ln)
            continue
        ret, pos, got, buf = answer(a)
        if not ret:
            rep.violation("ada:%s:refused" % op, "%s refuses %s, which the C runtime %s" % (op, c.enc[:200], "writes" if kind == "dec" else "encodes"), ln)
        elif pos != end:
            rep.violation("ada:%s:position" % op, "%s leaves position %d, the C runtime %d (%s)" % (op, pos, end, c.enc[:200]), ln)
        elif kind == "dec" and op.startswith("BitStream_DecodeBitString") or op.startswith("BitStream_DecodeOctetString"):
            if got[1] != vals[1] or got[0][:len(vals[0])] != vals[0]:
                rep.violation("ada:%s:value" % op, "%s returns %s for %s" % (op, str(got)[:200], c.enc[:200]), ln)
        elif kind == "dec" and got != vals:
            rep.violation("ada:%s:value" % op, "%s returns %s, %s expected (%s)" % (op, str(got)[:200], str(vals)[:200], c.enc[:200]), ln)
        if kind == "enc" and buf != tohex(want):
            rep.violation("ada:%s:bits" % op, "%s writes %s, the C runtime %s (%s)" % (op, buf[:300], tohex(want)[:300], c.enc[:200]), ln)
        rep.count("ada_" + kind)
        if os.environ.get("V08"): rep.count("IN " + op)
        rep.ok((op, kind, start % 8, str(c.cls)[:20]))
    if len(rep.samples) < 4:
        rep.samples += [x[:300] for x in al[:2]]


def main(rep):
    rep.rule = "distinct (procedure of the Ada runtime, encoding or decoding, alignment, class of the value), each judged against the C runtime's bits"
    rep.assumptions = ["values and stream sizes within the Ada preconditions; a call its own precondition excludes is counted, not judged"]
    with Scratch("p08") as d:
        adrv, names = adart.build(os.path.join(d, "ada"))
        cdrv = rt.build_driver(os.path.join(d, "c"), rtgen.source())
        P = {k: v for k, v in adart.procs().items() if k in names}
        shards(rep, work, NCPU, (cdrv, adrv, P, adart.spans(), int(os.environ.get("N08", 2500 if tier() == "quick" else 60000))))
    rep.counters["procedures_exercised"] = len({c[0] for c in rep.distinct})
    return rep.finish()
