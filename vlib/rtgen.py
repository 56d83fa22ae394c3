"""Generates the dispatch part of the C runtime driver (harness/c/rt_common.h explains the protocol)."""
import re

W = {"": None, "UInt8": "uint8_t", "UInt16": "uint16_t", "UInt32": "uint32_t", "Int8": "int8_t", "Int16": "int16_t", "Int32": "int32_t"}

ops = {}          # name -> C body


def op(name, body):
    ops[name] = body


def u_enc(n): op(n, "%s(&bs, (asn1SccUint)argu()); resv();" % n)
def s_enc(n): op(n, "%s(&bs, (asn1SccSint)args_()); resv();" % n)
def u_enc_n(n): op(n, "asn1SccUint v = (asn1SccUint)argu(); int n = (int)args_(); %s(&bs, v, n); resv();" % n)
def s_enc_n(n): op(n, "asn1SccSint v = (asn1SccSint)args_(); int n = (int)args_(); %s(&bs, v, n); resv();" % n)
def dec(n, t, extra=""):
    signed = not (t.startswith("u") or t == "asn1SccUint")
    out = 'printf(",%lld", (long long)*v);' if signed else 'printf(",%llu", (unsigned long long)*v);'
    call = "%s(&bs, v%s)" % (n, ", n" if extra == "n" else ", t, tn" if extra == "t" else "")
    pre = {"": "", "n": "int n = (int)args_(); ", "t": "size_t tn; byte *t = argh(&tn); "}[extra]
    op(n, "%s%s *v = xalloc(sizeof *v); memset(v, 0x5A, sizeof *v); flag r = %s; res(r); if (r) %s" % (pre, t, call, out))


U, S = "asn1SccUint", "asn1SccSint"
# ---- ACN integers -------------------------------------------------------------------------------------------
PI, TC = "Acn_%s_Int_PositiveInteger_", "Acn_%s_Int_TwosComplement_"
ENDS = ["big_endian_16", "big_endian_32", "big_endian_64", "little_endian_16", "little_endian_32", "little_endian_64"]
for base, e0, e1, t in ((PI, u_enc, u_enc_n, U), (TC, s_enc, s_enc_n, S)):
    e1(base % "Enc" + "ConstSize")
    dec(base % "Dec" + "ConstSize", t, "n")
    for k in ["ConstSize_8"] + ["ConstSize_" + e for e in ENDS] + ["VarSize_LengthEmbedded"]:
        e0(base % "Enc" + k)
        dec(base % "Dec" + k, t)
    ws = ["UInt8", "UInt16", "UInt32"] if t == U else ["Int8", "Int16", "Int32"]
    for w in ws:
        dec(base % "Dec" + "ConstSize" + w, W[w], "n")
        dec(base % "Dec" + "VarSize_LengthEmbedded" + w, W[w])
    dec(base % "Dec" + "ConstSize_8" + ws[0], W[ws[0]])
    for e in ENDS:
        bits = int(e[-2:])
        for w in ws:
            wb = int(re.sub(r"\D", "", w))
            if wb <= bits:
                dec(base % "Dec" + "ConstSize_" + e + w, W[w])
for fam, e0, e1, t, ws in (("Int_BCD", u_enc, u_enc_n, U, ["UInt8", "UInt16", "UInt32"]),
                           ("UInt_ASCII", u_enc, u_enc_n, U, ["UInt8", "UInt16", "UInt32"]),
                           ("SInt_ASCII", s_enc, s_enc_n, S, ["Int8", "Int16", "Int32"])):
    e1("Acn_Enc_%s_ConstSize" % fam)
    e0("Acn_Enc_%s_VarSize_LengthEmbedded" % fam)
    for w in [""] + ws:
        dec("Acn_Dec_%s_ConstSize%s" % (fam, w), W[w] or t, "n")
        dec("Acn_Dec_%s_VarSize_LengthEmbedded%s" % (fam, w), W[w] or t)
        dec("Acn_Dec_%s_VarSize_NullTerminated%s" % (fam, w), W[w] or t, "" if fam == "Int_BCD" else "t")
    if fam == "Int_BCD":
        e0("Acn_Enc_%s_VarSize_NullTerminated" % fam)
    else:
        n = "Acn_Enc_%s_VarSize_NullTerminated" % fam
        op(n, "%s v = (%s)%s; size_t tn; byte *t = argh(&tn); %s(&bs, v, t, tn); resv();" % (t, t, "argu()" if t == U else "args_()", n))
for e in ("big_endian", "little_endian"):
    for b in ("32", "64"):
        op("Acn_Enc_Real_IEEE754_%s_%s" % (b, e), "asn1Real v = (asn1Real)argd(); Acn_Enc_Real_IEEE754_%s_%s(&bs, v); resv();" % (b, e))
        op("Acn_Dec_Real_IEEE754_%s_%s" % (b, e), "asn1Real *v = xalloc(sizeof *v); flag r = Acn_Dec_Real_IEEE754_%s_%s(&bs, v); res(r); if (r) outd((double)*v);" % (b, e))
    op("Acn_Dec_Real_IEEE754_32_%s_fp32" % e, "float *v = xalloc(sizeof *v); flag r = Acn_Dec_Real_IEEE754_32_%s_fp32(&bs, v); res(r); if (r) outf(*v);" % e)
for n in ("Acn_AlignToNextByte", "Acn_AlignToNextWord", "Acn_AlignToNextDWord"):
    op(n, "flag e = (flag)args_(); %s(&bs, e); resv();" % n)
op("Acn_Enc_Length", "asn1SccUint v = (asn1SccUint)argu(); int n = (int)args_(); Acn_Enc_Length(&bs, v, n); resv();")
dec("Acn_Dec_Length", U, "n")
op("milbus_encode", 'asn1SccSint v = (asn1SccSint)args_(); v = milbus_encode(v); resv(); printf(",%lld", (long long)v);')
op("milbus_decode", 'asn1SccSint v = (asn1SccSint)args_(); v = milbus_decode(v); resv(); printf(",%lld", (long long)v);')
FL = "flag *v = xalloc(sizeof(flag)); *v = FALSE; "
op("BitStream_ReadBitPattern", "byte *t = argh(NULL); int n = (int)args_(); " + FL + 'flag r = BitStream_ReadBitPattern(&bs, t, n, v); res(r); if (r) printf(",%d", (int)*v);')
op("BitStream_DecodeTrueFalseBoolean", "byte *t = argh(NULL); byte *f = argh(NULL); int n = (int)args_(); " + FL + 'flag r = BitStream_DecodeTrueFalseBoolean(&bs, t, f, n, v); res(r); if (r) printf(",%d", (int)*v);')
op("BitStream_ReadBitPattern_ignore_value", "int n = (int)args_(); res(BitStream_ReadBitPattern_ignore_value(&bs, n));")
# ---- ACN strings --------------------------------------------------------------------------------------------
A = "Acn_%s_String_%s"
for k, a in (("FixSize", ""), ("External_Field_Determinant", ""), ("Internal_Field_Determinant", "m")):
    for cs in ("Ascii", "CharIndex", "IA5"):
        if cs == "IA5" and k == "FixSize":
            continue
        nm = ("Acn_%s_IA5String_CharIndex_" if cs == "IA5" else "Acn_%s_String_" + cs + "_") + k
        csa = ", cs, csn" if cs == "CharIndex" else ""
        csp = "size_t csz; byte *cs = argh(&csz); int csn = (int)csz; " if cs == "CharIndex" else ""
        mn = ", mn" if a else ""
        mnp = "asn1SccSint mn = (asn1SccSint)args_(); " if a else ""
        ex = ", ext" if k.startswith("Ext") else ""
        exp_ = "asn1SccSint ext = (asn1SccSint)args_(); " if ex else ""
        op(nm % "Enc", "asn1SccSint mx = (asn1SccSint)args_(); %s%schar *s = args0(); %s(&bs, mx%s%s, s); resv();" % (csp, mnp, nm % "Enc", csa, mn))
        op(nm % "Dec", "asn1SccSint mx = (asn1SccSint)args_(); %s%s%schar *s = xalloc((size_t)mx + 1); memset(s, 0x5A, (size_t)mx + 1); flag r = %s(&bs, mx%s%s%s, s); res(r); if (r) { putchar(','); outhex(s, (size_t)mx + 1); }" % (csp, mnp, exp_, nm % "Dec", csa, mn, ex))
op("Acn_Enc_String_Ascii_Null_Terminated", "asn1SccSint mx = (asn1SccSint)args_(); int c = (int)args_(); char *s = args0(); Acn_Enc_String_Ascii_Null_Terminated(&bs, mx, (char)c, s); resv();")
op("Acn_Dec_String_Ascii_Null_Terminated", "asn1SccSint mx = (asn1SccSint)args_(); int c = (int)args_(); char *s = xalloc((size_t)mx + 1); memset(s, 0x5A, (size_t)mx + 1); flag r = Acn_Dec_String_Ascii_Null_Terminated(&bs, mx, (char)c, s); res(r); if (r) { putchar(','); outhex(s, (size_t)mx + 1); }")
op("Acn_Enc_String_Ascii_Null_Terminated_mult", "asn1SccSint mx = (asn1SccSint)args_(); size_t tn; byte *t = argh(&tn); char *s = args0(); Acn_Enc_String_Ascii_Null_Terminated_mult(&bs, mx, t, tn, s); resv();")
op("Acn_Dec_String_Ascii_Null_Terminated_mult", "asn1SccSint mx = (asn1SccSint)args_(); size_t tn; byte *t = argh(&tn); char *s = xalloc((size_t)mx + 1); memset(s, 0x5A, (size_t)mx + 1); flag r = Acn_Dec_String_Ascii_Null_Terminated_mult(&bs, mx, t, tn, s); res(r); if (r) { putchar(','); outhex(s, (size_t)mx + 1); }")
# ---- bit stream ---------------------------------------------------------------------------------------------
op("BitStream_AppendBit", "flag b = (flag)args_(); BitStream_AppendBit(&bs, b); resv();")
for n in ("BitStream_AppendBitOne", "BitStream_AppendBitZero"):
    op(n, "%s(&bs); resv();" % n)
for n in ("BitStream_AppendNBitZero", "BitStream_AppendNBitOne"):
    op(n, "int n = (int)args_(); %s(&bs, n); resv();" % n)
op("BitStream_AppendBits", "int n = (int)args_(); byte *b = argh(NULL); BitStream_AppendBits(&bs, b, n); resv();")
op("BitStream_AppendByte", "byte b = (byte)args_(); flag g = (flag)args_(); BitStream_AppendByte(&bs, b, g); resv();")
op("BitStream_AppendByte0", "byte b = (byte)args_(); res(BitStream_AppendByte0(&bs, b));")
op("BitStream_AppendPartialByte", "byte b = (byte)args_(); byte n = (byte)args_(); flag g = (flag)args_(); BitStream_AppendPartialByte(&bs, b, n, g); resv();")
op("BitStream_AppendByteArray", "size_t n; byte *b = argh(&n); res(BitStream_AppendByteArray(&bs, b, (int)n));")
op("BitStream_EncodeNonNegativeInteger", "BitStream_EncodeNonNegativeInteger(&bs, (asn1SccUint)argu()); resv();")
op("BitStream_EncodeNonNegativeIntegerNeg", "asn1SccUint v = (asn1SccUint)argu(); flag g = (flag)args_(); BitStream_EncodeNonNegativeIntegerNeg(&bs, v, g); resv();")
dec("BitStream_DecodeNonNegativeInteger", U, "n")
op("BitStream_ReadBit", FL + 'flag r = BitStream_ReadBit(&bs, v); res(r); if (r) printf(",%d", (int)*v);')
op("BitStream_PeekBit", 'flag r = BitStream_PeekBit(&bs); resv(); printf(",%d", (int)r);')
op("BitStream_ReadByte", 'byte *v = xalloc(1); flag r = BitStream_ReadByte(&bs, v); res(r); if (r) printf(",%d", (int)*v);')
op("BitStream_ReadPartialByte", 'byte n = (byte)args_(); byte *v = xalloc(1); flag r = BitStream_ReadPartialByte(&bs, v, n); res(r); if (r) printf(",%d", (int)*v);')
op("BitStream_ReadBits", "int n = (int)args_(); size_t z = (size_t)(n + 7) / 8; byte *v = xalloc(z); flag r = BitStream_ReadBits(&bs, v, n); res(r); if (r) { putchar(','); outhex(v, z); }")
op("BitStream_ReadByteArray", "int n = (int)args_(); byte *v = xalloc((size_t)n); flag r = BitStream_ReadByteArray(&bs, v, n); res(r); if (r) { putchar(','); outhex(v, (size_t)n); }")
op("BitStream_GetLength", 'resv(); printf(",%lld", (long long)BitStream_GetLength(&bs));')
op("setpos", "long long p = args_(); AcnBitStreamPos q; q.currentByte = (long)(p / 8); q.currentBit = (int)(p % 8); Acn_BitStream_SetPos(&bs, q); resv();")
op("getpos", 'AcnBitStreamPos q = Acn_BitStream_GetPos(&bs); resv(); printf(",%lld", (long long)q.currentByte * 8 + q.currentBit);')
op("BitStream_checkBitPatternPresent", 'size_t n = (size_t)argu(); byte *t = argh(NULL); int r = BitStream_checkBitPatternPresent(&bs, t, n); resv(); printf(",%d", r);')
op("BitStream_ReadBits_nullterminated", 'size_t n = (size_t)argu(); byte *t = argh(NULL); int mx = (int)args_(); int *k = xalloc(sizeof(int)); byte *v = xalloc((size_t)(mx + 7) / 8); flag r = BitStream_ReadBits_nullterminated(&bs, t, n, v, mx, k); res(r); if (r) { printf(",%d,", *k); outhex(v, (size_t)(*k + 7) / 8); }')
# ---- uPER ---------------------------------------------------------------------------------------------------
op("BitStream_EncodeUnConstraintWholeNumber", "BitStream_EncodeUnConstraintWholeNumber(&bs, (asn1SccSint)args_()); resv();")
dec("BitStream_DecodeUnConstraintWholeNumber", S)
op("BitStream_EncodeSemiConstraintWholeNumber", "asn1SccSint v = (asn1SccSint)args_(); asn1SccSint m = (asn1SccSint)args_(); BitStream_EncodeSemiConstraintWholeNumber(&bs, v, m); resv();")
op("BitStream_EncodeSemiConstraintPosWholeNumber", "asn1SccUint v = (asn1SccUint)argu(); asn1SccUint m = (asn1SccUint)argu(); BitStream_EncodeSemiConstraintPosWholeNumber(&bs, v, m); resv();")
op("BitStream_EncodeConstraintWholeNumber", "asn1SccSint v = (asn1SccSint)args_(); asn1SccSint m = (asn1SccSint)args_(); asn1SccSint x = (asn1SccSint)args_(); BitStream_EncodeConstraintWholeNumber(&bs, v, m, x); resv();")
op("BitStream_EncodeConstraintPosWholeNumber", "asn1SccUint v = (asn1SccUint)argu(); asn1SccUint m = (asn1SccUint)argu(); asn1SccUint x = (asn1SccUint)argu(); BitStream_EncodeConstraintPosWholeNumber(&bs, v, m, x); resv();")
def decm(n, t, k):
    signed = not (t.startswith("u") or t == "asn1SccUint")
    g = "args_()" if signed else "argu()"
    out = 'printf(",%lld", (long long)*v);' if signed else 'printf(",%llu", (unsigned long long)*v);'
    pre = "".join("%s a%d = (%s)%s; " % (t, i, t, g) for i in range(k))
    op(n, "%s%s *v = xalloc(sizeof *v); memset(v, 0x5A, sizeof *v); flag r = %s(&bs, v%s); res(r); if (r) %s" % (pre, t, n, "".join(", a%d" % i for i in range(k)), out))
decm("BitStream_DecodeSemiConstraintWholeNumber", S, 1)
decm("BitStream_DecodeSemiConstraintPosWholeNumber", U, 1)
decm("BitStream_DecodeConstraintWholeNumber", S, 2)
decm("BitStream_DecodeConstraintPosWholeNumber", U, 2)
for w in ("8", "16", "32"):
    decm("BitStream_DecodeConstraintWholeNumberInt" + w, "int%s_t" % w, 2)
    decm("BitStream_DecodeConstraintPosWholeNumberUInt" + w, "uint%s_t" % w, 2)
op("BitStream_EncodeReal", "asn1Real v = (asn1Real)argd(); BitStream_EncodeReal(&bs, v); resv();")
op("BitStream_DecodeReal", "asn1Real *v = xalloc(sizeof *v); flag r = BitStream_DecodeReal(&bs, v); res(r); if (r) outd((double)*v);")
op("BitStream_DecodeReal_fp32", "float *v = xalloc(sizeof *v); flag r = BitStream_DecodeReal_fp32(&bs, v); res(r); if (r) outf(*v);")
op("BitStream_EncodeOctetString_no_length", "size_t n; byte *b = argh(&n); res(BitStream_EncodeOctetString_no_length(&bs, b, (int)n));")
op("BitStream_DecodeOctetString_no_length", "int n = (int)args_(); byte *v = xalloc((size_t)n); flag r = BitStream_DecodeOctetString_no_length(&bs, v, n); res(r); if (r) { putchar(','); outhex(v, (size_t)n); }")
op("BitStream_EncodeOctetString_fragmentation", "size_t n; byte *b = argh(&n); res(BitStream_EncodeOctetString_fragmentation(&bs, b, (int)n));")
op("BitStream_DecodeOctetString_fragmentation", 'asn1SccSint mx = (asn1SccSint)args_(); int *n = xalloc(sizeof(int)); byte *v = xalloc((size_t)mx); flag r = BitStream_DecodeOctetString_fragmentation(&bs, v, n, mx); res(r); if (r) { printf(",%d,", *n); outhex(v, (size_t)*n); }')
op("BitStream_EncodeOctetString", "asn1SccSint mn = (asn1SccSint)args_(); asn1SccSint mx = (asn1SccSint)args_(); size_t n; byte *b = argh(&n); res(BitStream_EncodeOctetString(&bs, b, (int)n, mn, mx));")
op("BitStream_DecodeOctetString", 'asn1SccSint mn = (asn1SccSint)args_(); asn1SccSint mx = (asn1SccSint)args_(); int *n = xalloc(sizeof(int)); byte *v = xalloc((size_t)mx); flag r = BitStream_DecodeOctetString(&bs, v, n, mn, mx); res(r); if (r) { printf(",%d,", *n); outhex(v, (size_t)*n); }')
op("BitStream_EncodeBitString", "asn1SccSint mn = (asn1SccSint)args_(); asn1SccSint mx = (asn1SccSint)args_(); int n = (int)args_(); byte *b = argh(NULL); res(BitStream_EncodeBitString(&bs, b, n, mn, mx));")
op("BitStream_DecodeBitString", 'asn1SccSint mn = (asn1SccSint)args_(); asn1SccSint mx = (asn1SccSint)args_(); int *n = xalloc(sizeof(int)); byte *v = xalloc((size_t)(mx + 7) / 8); flag r = BitStream_DecodeBitString(&bs, v, n, mn, mx); res(r); if (r) { printf(",%d,", *n); outhex(v, (size_t)(*n + 7) / 8); }')
for k in ("ObjectIdentifier", "RelativeOID"):
    op(k + "_uper_encode", "Asn1ObjectIdentifier *o = xalloc(sizeof *o); oidin(o); %s_uper_encode(&bs, o); resv();" % k)
    op(k + "_uper_decode", "Asn1ObjectIdentifier *o = xalloc(sizeof *o); memset(o, 0x5A, sizeof *o); flag r = %s_uper_decode(&bs, o); res(r); if (r) oidout(o);" % k)
    op(k + "_isValid", 'Asn1ObjectIdentifier *o = xalloc(sizeof *o); oidin(o); resv(); printf(",%%d", (int)%s_isValid(o));' % k)
op("ObjectIdentifier_equal", 'Asn1ObjectIdentifier *o = xalloc(sizeof *o); Asn1ObjectIdentifier *q = xalloc(sizeof *q); oidin(o); oidin(q); resv(); printf(",%d", (int)ObjectIdentifier_equal(o, q));')
op("BitString_equal", 'int n = (int)args_(); int m = (int)args_(); byte *a = argh(NULL); byte *b = argh(NULL); resv(); printf(",%d", (int)BitString_equal(n, m, a, b));')
op("OctetString_equal", 'int n = (int)args_(); int m = (int)args_(); byte *a = argh(NULL); byte *b = argh(NULL); resv(); printf(",%d", (int)OctetString_equal(n, m, a, b));')
op("Asn1Real_Equal", 'asn1Real a = (asn1Real)argd(); asn1Real b = (asn1Real)argd(); resv(); printf(",%d", (int)Asn1Real_Equal(a, b));')
op("GetNumberOfBitsForNonNegativeInteger", 'asn1SccUint a = (asn1SccUint)argu(); resv(); printf(",%d", GetNumberOfBitsForNonNegativeInteger(a));')
op("GetLengthInBytesOfUInt", 'asn1SccUint a = (asn1SccUint)argu(); resv(); printf(",%d", GetLengthInBytesOfUInt(a));')
op("GetLengthInBytesOfSInt", 'asn1SccSint a = (asn1SccSint)args_(); resv(); printf(",%d", GetLengthInBytesOfSInt(a));')
op("uint2int", 'asn1SccUint a = (asn1SccUint)argu(); int n = (int)args_(); resv(); printf(",%lld", (long long)uint2int(a, n));')
op("int2uint", 'asn1SccSint a = (asn1SccSint)args_(); resv(); printf(",%llu", (unsigned long long)int2uint(a));')
for n in ("binarySearch", "linearSearch"):
    op(n, 'asn1SccSint x = (asn1SccSint)args_(); int n = (int)args_(), i; asn1SccSint *a = xalloc((size_t)n * sizeof *a); for (i = 0; i < n; i++) a[i] = (asn1SccSint)args_(); resv(); printf(",%%d", %s(a, n, x));' % n)
op("GetCharIndex", 'int c = (int)args_(); size_t n; byte *b = argh(&n); resv(); printf(",%d", GetCharIndex((char)c, b, (int)n));')

# ---- deferred (reserve, then patch) determinants ------------------------------------------------------------
DETS = ["U8", "U16_BE", "U32_BE", "U64_BE", "U16_LE", "U32_LE", "U64_LE", "I8", "I16_BE", "I32_BE", "I64_BE", "BOOL1"]
RES = 'det_err = 0; flag r = %s; printf(" r%%d,p%%lld,%%d", (int)r, position(), det_err);'
for n in DETS:
    op("Acn_InitDet_" + n, "int k = (int)args_() & 7; memset(&dets[k], 0x5A, sizeof dets[k]); Acn_InitDet_%s(&bs, &dets[k]); resv();" % n)
    op("Acn_PatchDet_" + n, "int k = (int)args_() & 7; asn1SccUint v = (asn1SccUint)argu(); " + RES % ("Acn_PatchDet_%s(v, &bs, &dets[k], &det_err)" % n))
for n in ("ConstSize", "TwosComplement_ConstSize"):
    op("Acn_InitDet_" + n, "int k = (int)args_() & 7; int b = (int)args_(); memset(&dets[k], 0x5A, sizeof dets[k]); Acn_InitDet_%s(&bs, b, &dets[k]); resv();" % n)
    op("Acn_PatchDet_" + n, "int k = (int)args_() & 7; int b = (int)args_(); asn1SccUint v = (asn1SccUint)argu(); " + RES % ("Acn_PatchDet_%s(v, &bs, b, &dets[k], &det_err)" % n))
op("Acn_InitDet_IA5String_FixSize", "int k = (int)args_() & 7; int b = (int)args_(); memset(&dets[k], 0x5A, sizeof dets[k]); Acn_InitDet_IA5String_FixSize(&bs, b, &dets[k]); resv();")
op("Acn_PatchDet_IA5String_FixSize", "int k = (int)args_() & 7; int b = (int)args_(); char *s = args0(); " + RES % "Acn_PatchDet_IA5String_FixSize(s, &bs, b, &dets[k], &det_err)")
for n in ("Bytes", "Bits"):
    op("Acn_BitStream_DistanceIn" + n, 'long long a = args_(), b = args_(); AcnBitStreamPos p, q; p.currentByte = (long)(a / 8); p.currentBit = (int)(a & 7); q.currentByte = (long)(b / 8); q.currentBit = (int)(b & 7); resv(); printf(",%%llu", (unsigned long long)Acn_BitStream_DistanceIn%s(p, q));' % n)


def source():
    out = ['#include "rt_common.h"']
    names = sorted(ops)
    for i, n in enumerate(names):
        out.append("static void op_%d(void) { %s }" % (i, ops[n]))
    out.append("static const struct { const char *n; void (*f)(void); } OPS[] = {")
    out += ['  { "%s", op_%d },' % (n, i) for i, n in enumerate(names)]
    out.append("};\n" + MAIN)
    return "\n".join(out)


MAIN = r'''
static void onalrm(int s) { (void)s; static const char m[] = "\nHARNESS-TIMEOUT\n"; if (write(2, m, sizeof m - 1)) {} _exit(98); }
int main(int argc, char **argv) {
    char *line = NULL; size_t cap = 0; long n; int i; long skip = argc > 1 ? atol(argv[1]) : 0;
    static char obuf[1 << 16]; setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
    signal(SIGALRM, onalrm);
    while ((n = getline(&line, &cap, stdin)) > 0) {
        if (skip > 0) { skip--; continue; }
        char *p = line; ntok = 0;
        while (*p) { while (*p == ' ' || *p == '\n') *p++ = 0; if (!*p) break; if (ntok >= MAXTOK) { fprintf(stderr, "HARNESS too many tokens\n"); _exit(97); } tok[ntok++] = p; while (*p && *p != ' ' && *p != '\n') p++; }
        if (ntok < 4) { puts("?"); continue; }
        alarm(10);
        tp = 0; skiprest = 0; narena = 0; nsink = 0; fetched = 0; streaming_mode = 0;
        { char mode = *arg(); long bcap = (long)argu(); size_t hn; byte *init; long start; byte *buf;
          init = argh(&hn); start = (long)argu();
          if (mode == 'E') {
#ifdef ASN1SCC_STREAMING
              buf = xalloc((size_t)bcap); memset(buf, 0, (size_t)bcap); BitStream_AttachBuffer2(&bs, buf, bcap, &bs, NULL); streaming_mode = 'E';
#else
              _exit(97);
#endif
          } else if (mode == 'D') {
#ifdef ASN1SCC_STREAMING
              buf = xalloc((size_t)bcap); src = init; nsrc = hn; psrc = 0; BitStream_AttachBuffer2(&bs, buf, bcap, NULL, &bs); streaming_mode = 'D'; fetchData(&bs, &bs); fetched = 0;
#else
              _exit(97);
#endif
          } else if (mode == 'I') {
              buf = xalloc((size_t)bcap); memset(buf, 0x5A, (size_t)bcap); BitStream_Init(&bs, buf, bcap);
          } else { buf = xalloc((size_t)bcap); memcpy(buf, init, hn < (size_t)bcap ? hn : (size_t)bcap); BitStream_AttachBuffer(&bs, buf, bcap); }
          if (!streaming_mode) { bs.currentByte = start / 8; bs.currentBit = (int)(start % 8); }
          while (tp < ntok && !skiprest) {
              const char *o;
              if (strcmp(tok[tp], ";") == 0) tp++;
              if (tp >= ntok) break;
              o = arg();
              { int lo = 0, hi = (int)(sizeof OPS / sizeof OPS[0]) - 1, f = -1;
                while (lo <= hi) { int m = (lo + hi) / 2; int c = strcmp(o, OPS[m].n); if (c == 0) { f = m; break; } if (c < 0) hi = m - 1; else lo = m + 1; }
                if (f < 0) { fprintf(stderr, "HARNESS unknown op %s\n", o); _exit(97); }
                OPS[f].f(); }
          }
          fputs(" |", stdout);
          if (streaming_mode == 'E') { if (nsink) outhex(sink, nsink); if (bs.currentByte || bs.currentBit) outhex(buf, (size_t)(bs.currentByte + (bs.currentBit ? 1 : 0))); else if (!nsink) putchar('-'); }
          else if (streaming_mode == 'D') putchar('-');
          else outhex(buf, (size_t)bcap);
          putchar('\n'); fflush(stdout); }
        for (i = 0; i < narena; i++) free(arena[i]);
    }
    return 0;
}
'''
