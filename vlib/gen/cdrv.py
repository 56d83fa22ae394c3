"""Generates the C driver for one grammar: reads values as tokens, runs the generated codecs, prints values as tokens."""
from .model import *
from ..common import *

PRELUDE = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <inttypes.h>
#include <unistd.h>
#include <signal.h>
%s
static char *LN; static size_t LC;
static char *TOK;
static char *tok(void) { char *p = TOK; if (!p) { fprintf(stderr, "HARNESS no token\n"); exit(97); }
  while (*p == ' ') p++; char *s = p; while (*p && *p != ' ' && *p != '\n') p++; if (*p) { *p = 0; TOK = p + 1; } else TOK = 0;
  if (!*s) { fprintf(stderr, "HARNESS empty token\n"); exit(97); } return s; }
static long long tll(void) { char *s = tok(); return *s == '-' ? strtoll(s, 0, 10) : (long long)strtoull(s, 0, 10); }
static double trl(void) { unsigned long long u = strtoull(tok(), 0, 16); double d; memcpy(&d, &u, 8); return d; }
static void drl(double d) { unsigned long long u; memcpy(&u, &d, 8); if (d != d) u = 0x7ff8000000000000ull; printf(" %%llx", u); }
static int hx(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
/* n:hex -> fills at most cap bytes */
static long tby(unsigned char *b, size_t cap) { char *s = tok(); long n = strtol(s, &s, 10); if (*s == ':') s++; size_t i = 0;
  for (; s[0] && s[1] && i < cap; s += 2, i++) b[i] = (unsigned char)(hx(s[0]) * 16 + hx(s[1])); return n; }
static void dby(long n, const unsigned char *b, size_t nb) { printf(" %%ld:", n); for (size_t i = 0; i < nb; i++) printf("%%02x", b[i]); }
static void tst(char *b, size_t cap) { char *s = tok() + 1; int fill = 0; if (*s == '!') { fill = 1; s++; } size_t i = 0; memset(b, fill ? 'A' : 0, cap);
  for (; s[0] && s[1] && i < cap; s += 2, i++) b[i] = (char)(hx(s[0]) * 16 + hx(s[1])); }
static void dst(const char *b, size_t cap) { printf(" s"); size_t i = 0; for (; i < cap && b[i]; i++) printf("%%02x", (unsigned char)b[i]); if (i == cap) printf("!"); }
#define DI(x) do { if ((x) < 0) printf(" %%lld", (long long)(x)); else printf(" %%llu", (unsigned long long)(x)); } while (0)
static void trunc_(const char *what, long v, long cap) { printf(" !%%s=%%ld/%%ld", what, v, cap); }
/* a fixed size type has only arr, a variable one starts with nCount */
#define HASN(l) ((const char *)(l).arr != (const char *)&(l))
/* elements without members have no size: any number of them fits */
#define CAPN(l) (sizeof (l).arr[0] ? (long)(sizeof (l).arr / (sizeof (l).arr[0] + !sizeof (l).arr[0])) : 100000000L)
#define SETN(l, n) do { if (HASN(l)) { int n__ = (int)(n); memcpy((void*)&(l), &n__, sizeof n__); } } while (0)
static long getn_(const void *p) { int n; memcpy(&n, p, sizeof n); return n; }
#define GETN(l, fixed) (HASN(l) ? getn_(&(l)) : (long)(fixed))
static long fit_(long m, long cap) { if (m > cap) { printf("SMALL %%ld/%%ld ", m, cap); return cap; } return m; }
static size_t unhex(const char *s, unsigned char **out) { size_t n = strcmp(s, "-") ? strlen(s) / 2 : 0; *out = malloc(n ? n : 1); for (size_t i = 0; i < n; i++) (*out)[i] = (unsigned char)(hx(s[2*i]) * 16 + hx(s[2*i+1]));
  return n; }
static long long bitlen(BitStream *s) { return (long long)s->currentByte * 8 + s->currentBit; }
static void hexout(const unsigned char *b, long long n) { if (n <= 0) putchar('-'); for (long long i = 0; i < n; i++) printf("%%02x", b[i]); }
'''

MAIN = r'''
int main(void) {
  setvbuf(stdout, 0, _IOFBF, 1 << 16);
  while (getline(&LN, &LC, stdin) > 0) {
    char *e = LN + strlen(LN); while (e > LN && (e[-1] == '\n' || e[-1] == '\r')) *--e = 0;
    TOK = LN; alarm(20);
    int id = (int)tll(); char *cmd = tok();
    dispatch(id, cmd);
    putchar('\n'); fflush(stdout);
  }
  return 0;
}
'''

TYPE = r'''
/* ---- %(name)s ---- */
static %(T)s *new_%(i)d(int junk) { %(T)s *p = malloc(sizeof(%(T)s)); memset(p, junk, sizeof(%(T)s)); return p; }
static void cmd_%(i)d(const char *cmd) {
  int err = 0; flag ret;
  if (cmd[0] == 'E') { /* E<u|a|x> junk mode value : validity, encode with checks */
    int junk = (int)tll(); int attach = (int)tll();
    %(T)s *p = new_%(i)d(junk); rd_%(i)d(%(parg)s);
    ret = VALID_%(T)s(%(arg)s, &err); printf("v%%d,%%d", ret, err);
    BitStream bs; long cap = 0; unsigned char *buf = 0;
    %(encs)s
    { printf(" nocmd"); }
    free(p); free(buf);
  } else if (cmd[0] == 'D') { /* D<u|a|x> junk hex : decode, dump, validity, re-encode */
    int junk = (int)tll(); unsigned char *in; size_t n = unhex(tok(), &in);
    unsigned char *ex = malloc(n ? n : 1); memcpy(ex, in, n); free(in);
    %(T)s *p = new_%(i)d(junk); BitStream bs; long cap = 0; unsigned char *buf = 0;
    BitStream_AttachBuffer(&bs, ex, (long)n);
    %(decs)s
    { printf(" nocmd"); }
    free(p); free(ex); free(buf);
  } else if (cmd[0] == 'Q') { /* equality of two values */
    %(T)s *p = new_%(i)d(0), *q = new_%(i)d(0x5a); rd_%(i)d(%(parg)s); rd_%(i)d(%(qarg)s);
    %(eq)s
    free(p); free(q);
  } else if (cmd[0] == 'I') { /* initialiser */
    int junk = (int)tll(); %(T)s *p = new_%(i)d(junk);
    %(init)s
    free(p);
  } else printf("nocmd");
}
'''


TYPE_S = r'''
/* ---- %(name)s ---- */
static %(T)s *new_%(i)d(int junk) { %(T)s *p = malloc(sizeof(%(T)s)); memset(p, junk, sizeof(%(T)s)); return p; }
static void cmd_%(i)d(const char *cmd) {
  int err = 0; flag ret;
  if (cmd[0] == 'E') { /* E<u|a> size value : validity, encode with checks through a buffer of so many bytes */
    long size = (long)tll(); %(T)s *p = new_%(i)d(0); rd_%(i)d(%(parg)s);
    ret = VALID_%(T)s(%(arg)s, &err); printf("v%%d,%%d", ret, err);
    BitStream bs; unsigned char *buf = 0;
    %(encs)s
    { printf(" nocmd"); }
    free(p); free(buf);
  } else if (cmd[0] == 'D') { /* D<u|a> size pad hex : decode through a buffer of so many bytes; pad: zeroes follow the message */
    long size = (long)tll(); int pad = (int)tll(); unsigned char *in; size_t n = unhex(tok(), &in);
    unsigned char *ex = malloc(n ? n : 1); memcpy(ex, in, n); free(in);
    %(T)s *p = new_%(i)d(0); BitStream bs; unsigned char *buf = 0;
    %(decs)s
    { printf(" nocmd"); }
    free(p); free(ex); free(buf);
  } else printf("nocmd");
}
'''

# the user's side of streaming mode: a sink that collects what is pushed out, a source that refills the buffer
STREAM = r'''
typedef struct { unsigned char *b; long n, cap, size, calls; int pad; } Str;
void pushData(BitStream *bs, void *prm) { Str *s = prm; if (s->n + bs->currentByte > s->cap) { s->cap = 2 * s->cap + bs->currentByte; s->b = realloc(s->b, (size_t)s->cap); }
  memcpy(s->b + s->n, bs->buf, (size_t)bs->currentByte); s->n += bs->currentByte; s->calls++; memset(bs->buf, 0xA5, (size_t)bs->count); }
static long chunk_(Str *s, unsigned char *to) { long k = s->cap - s->n < s->size ? s->cap - s->n : s->size; memset(to, 0, (size_t)s->size); memcpy(to, s->b + s->n, (size_t)k); s->n += k; return k; }
void fetchData(BitStream *bs, void *prm) { Str *s = prm; s->calls++; long k = chunk_(s, bs->buf);
  if (s->pad && !k && s->calls < 1000000) { s->n += s->size; bs->count = s->size; return; } bs->count = k; }
'''

STREAM_E = r'''if (cmd[1] == '%(e)s') { buf = malloc((size_t)size); memset(buf, 0xA5, (size_t)size); Str k = {malloc(64), 0, 64, size, 0, 0}; BitStream_Init2(&bs, buf, size, &k, NULL);
      ret = %(ef)s(%(arg)s, &bs, &err, TRUE); printf(" e%%d,%%d", ret, err); if (ret) { long long n = k.n * 8 + bitlen(&bs); long calls = k.calls;
        if (bs.currentByte < 0 || bs.currentByte >= size || bs.currentBit < 0 || bs.currentBit > 7 || bs.count != size) printf(" POSITION %%ld %%d %%ld", (long)bs.currentByte, (int)bs.currentBit, (long)bs.count);
        if (bs.currentBit) { bs.buf[bs.currentByte] &= (unsigned char)(0xff << (8 - bs.currentBit)); bs.currentByte++; }
        if (bs.currentByte) pushData(&bs, &k); printf(",%%lld,%%ld ", n, calls); hexout(k.b, k.n); } free(k.b); } else'''

STREAM_D = r'''if (cmd[1] == '%(e)s') { Str k = {ex, 0, (long)n, size, 0, pad}; buf = malloc((size_t)size); long first = chunk_(&k, buf); BitStream_AttachBuffer2(&bs, buf, first, NULL, &k); if (!first) bs.count = 0;
      ret = %(df)s(%(parg)s, &bs, &err); long done = k.n - bs.count; printf("d%%d,%%d,%%lld,%%ld", ret, err, (long long)done * 8 + bitlen(&bs), k.calls);
      if (bs.currentByte < 0 || bs.currentByte > bs.count || bs.currentBit < 0 || bs.currentBit > 7) printf(" POSITION %%ld %%d %%ld", (long)bs.currentByte, (int)bs.currentBit, (long)bs.count);
      if (ret) { printf(" |"); dp_%(i)d(%(arg)s); } } else'''


class CDriver:
    """opts: prefix for C names, encodings present, equal/init flags."""
    def __init__(self, g, encs=("u",), equal=False, init=False, prefix="", name=c_name, want=None, enumval=None, fprefix="", stream=False):
        self.stream = stream
        self.fprefix = fprefix
        self.g, self.encs, self.equal, self.init, self.prefix, self.name = g, encs, equal, init, prefix, name
        self.want = want
        self.depth = 0

    def tn(self, a):
        return self.prefix + self.name(a.name)

    def fname(self, n):
        return self.fprefix + self.name(n)

    def read(self, t, lv, o, ind):
        """code reading tokens into lvalue lv"""
        s = "  " * ind
        if t.kind == "REF" and not self.inline(t):
            b, _ = base(t)
            o.append("%srd_%d(%s);" % (s, self.index[t.ref.name], lv if b.kind == "STR" else "(void*)&" + lv))
            return
        b, _ = base(t)
        k = b.kind
        if k in ("INT", "ENUM"):
            o.append("%s%s = tll();" % (s, lv))
        elif k == "BOOL":
            o.append("%s%s = tll() != 0;" % (s, lv))
        elif k == "NULL":
            o.append("%s%s = 0;" % (s, lv))
        elif k == "REAL":
            o.append("%s%s = trl();" % (s, lv))
        elif k == "STR":
            o.append("%stst(%s, sizeof(%s));" % (s, lv, lv))
        elif k in ("OCT", "BIT"):
            o.append("%s{ long n_ = tby(%s.arr, sizeof %s.arr); SETN(%s, n_); }" % (s, lv, lv, lv))
        elif k in ("SEQOF", "SETOF"):
            self.depth += 1
            i = "i%d" % self.depth
            o.append("%s{ char *q_ = tok(); long n_ = strtol(q_, &q_, 10), m_ = n_; if (*q_ == '/') m_ = strtol(q_ + 1, 0, 10);" % s)
            o.append("%s  SETN(%s, n_); m_ = fit_(m_, CAPN(%s));" % (s, lv, lv))
            o.append("%s  for (long %s = 0; %s < m_; %s++) {" % (s, i, i, i))
            self.read(b.elem, "%s.arr[%s]" % (lv, i), o, ind + 2)
            o.append("%s  } }" % s)
            self.depth -= 1
        elif k in ("SEQ", "SET"):
            for c in b.children:
                if c.acn is not None:
                    continue
                f = "%s.%s" % (lv, self.fname(c.name))
                if c.opt == "OPTIONAL":
                    o.append("%sif ((%s.exist.%s = tll() & 1)) {" % (s, lv, self.fname(c.name)))
                    self.read(c.t, f, o, ind + 1)
                    o.append(s + "}")
                elif c.opt == "DEFAULT":
                    o.append("%s%s.exist.%s = tll() & 1;" % (s, lv, self.fname(c.name)))
                    self.read(c.t, f, o, ind)
                else:
                    self.read(c.t, f, o, ind)
        elif k == "CHOICE":
            o.append("%s%s.kind = tll(); switch ((int)%s.kind) {" % (s, lv, lv))
            for i, c in enumerate(b.children):
                o.append("%scase %d: {" % (s, i + 1))
                self.read(c.t, "%s.u.%s" % (lv, self.fname(c.name)), o, ind + 1)
                o.append("%s} break;" % s)
            o.append(s + "}")
        elif k in ("OCTCONT", "BITCONT"):
            self.read(T("REF", ref=b.ref), lv, o, ind)
        elif k in ("OID", "ROID"):
            o.append("%s%s.nCount = (int)tll(); for (int z_ = 0; z_ < %s.nCount && z_ < OBJECT_IDENTIFIER_MAX_LENGTH; z_++) %s.values[z_] = (asn1SccUint)tll();" % (s, lv, lv, lv))
        else:
            raise ValueError(k)

    def inline(self, t):
        """A reference whose C representation may differ from the referenced type (other bounds) is expanded in place."""
        b, _ = base(t)
        if b.kind in ("INT", "REAL", "BOOL", "NULL", "STR", "OCT", "BIT", "ENUM"):
            return True
        while t.kind == "REF":
            if t.cons:
                return True
            t = t.ref.t
        return False

    def dump(self, t, lv, o, ind):
        s = "  " * ind
        if t.kind == "REF" and not self.inline(t):
            b, _ = base(t)
            o.append("%sdp_%d(%s);" % (s, self.index[t.ref.name], lv if b.kind == "STR" else "(const void*)&" + lv))
            return
        b, _ = base(t)
        k = b.kind
        if k == "INT":
            o.append("%sDI(%s);" % (s, lv))
        elif k == "ENUM":
            o.append("%sDI((long long)%s);" % (s, lv))
        elif k == "BOOL":
            o.append("%sprintf(\" %%d\", %s);" % (s, lv))
        elif k == "NULL":
            pass
        elif k == "REAL":
            o.append("%sdrl(%s);" % (s, lv))
        elif k == "STR":
            o.append("%sdst(%s, sizeof(%s));" % (s, lv, lv))
        elif k in ("OCT", "BIT"):
            per = 1 if k == "OCT" else 8
            o.append("%s{ long n_ = GETN(%s, %d), c_ = %d * CAPN(%s); if (n_ < 0 || n_ > c_) trunc_(\"count\", n_, c_); else dby(n_, %s.arr, (size_t)((n_ + %d) / %d)); }" % (s, lv, size_range(t)[1], per, lv, lv, per - 1, per))
        elif k in ("SEQOF", "SETOF"):
            self.depth += 1
            i = "i%d" % self.depth
            o.append("%s{ long n%s = GETN(%s, %d); if (n%s < 0 || n%s > CAPN(%s)) trunc_(\"count\", n%s, CAPN(%s)); else {" % (s, i, lv, size_range(t)[1], i, i, lv, i, lv))
            o.append("%s  printf(\" %%ld\", n%s); for (long %s = 0; %s < n%s; %s++) {" % (s, i, i, i, i, i))
            self.dump(b.elem, "%s.arr[%s]" % (lv, i), o, ind + 2)
            o.append("%s  } } }" % s)
            self.depth -= 1
        elif k in ("SEQ", "SET"):
            for c in b.children:
                if c.acn is not None:
                    continue
                f = "%s.%s" % (lv, self.fname(c.name))
                if c.opt == "OPTIONAL":
                    o.append("%sprintf(\" %%d\", (int)%s.exist.%s); if (%s.exist.%s) {" % (s, lv, self.fname(c.name), lv, self.fname(c.name)))
                    self.dump(c.t, f, o, ind + 1)
                    o.append(s + "}")
                elif c.opt == "DEFAULT":
                    o.append("%sprintf(\" %%d\", (int)%s.exist.%s);" % (s, lv, self.fname(c.name)))
                    self.dump(c.t, f, o, ind)
                else:
                    self.dump(c.t, f, o, ind)
        elif k == "CHOICE":
            o.append("%sprintf(\" %%d\", (int)%s.kind); switch ((int)%s.kind) {" % (s, lv, lv))
            for i, c in enumerate(b.children):
                o.append("%scase %d: {" % (s, i + 1))
                self.dump(c.t, "%s.u.%s" % (lv, self.fname(c.name)), o, ind + 1)
                o.append("%s} break;" % s)
            o.append("%sdefault: trunc_(\"kind\", (long)%s.kind, %d);" % (s, lv, len(b.children)))
            o.append(s + "}")
        elif k in ("OCTCONT", "BITCONT"):
            self.dump(T("REF", ref=b.ref), lv, o, ind)
        elif k in ("OID", "ROID"):
            o.append("%s{ long n_ = %s.nCount; if (n_ < 0 || n_ > OBJECT_IDENTIFIER_MAX_LENGTH) trunc_(\"count\", n_, 20); else { printf(\" %%ld\", n_); for (long z_ = 0; z_ < n_; z_++) printf(\" %%llu\", (unsigned long long)%s.values[z_]); } }" % (s, lv, lv))
        else:
            raise ValueError(k)

    FN = {"u": ("_Encode", "_Decode", "_REQUIRED_BYTES_FOR_ENCODING"), "a": ("_ACN_Encode", "_ACN_Decode", "_REQUIRED_BYTES_FOR_ACN_ENCODING")}

    def source(self, headers):
        out = [PRELUDE % "\n".join('#include "%s"' % h for h in headers)]
        if self.stream:
            out.append(STREAM)
        self.index = {a.name: i for i, a in enumerate(self.g.types)}
        for i, a in enumerate(self.g.types):
            b, _ = base(a.t)
            isstr = b.kind == "STR"
            Tn = self.tn(a)
            # NULL types have no IsConstraintValid function
            out.append("#define VALID_%s(p, e) %s" % (Tn, "(*(e) = 0, TRUE)" if a.t.kind == "NULL" or self.want is not None and a.name not in self.want else "%s_IsConstraintValid(p, e)" % Tn))
            o = ["static void rd_%d(%s) {" % (i, "char *p" if isstr else Tn + " *p")]
            if isstr:
                o.append("  tst(p, sizeof(%s));" % Tn)
            else:
                self.read(self.expand(a.t), "(*p)", o, 1)
            o.append("}")
            o.append("static void dp_%d(%s) {" % (i, "const char *p" if isstr else "const %s *p" % Tn))
            if isstr:
                o.append("  dst(p, sizeof(%s));" % Tn)
            else:
                self.dump(self.expand(a.t), "(*p)", o, 1)
            o.append("}")
            arg, parg, qarg = ("*p", "*p", "*q") if isstr else ("p", "p", "q")
            encs, decs = [], []
            wanted = self.want is None or a.name in self.want
            for e in self.encs if wanted else ():
                if e == "a" and a.params:
                    continue      # needs arguments: only reachable through the types that use it
                if e == "x":
                    encs.append(self.xer_enc(Tn, arg))
                    decs.append(self.xer_dec(Tn, i, arg, parg))
                    continue
                ef, df, rb = self.FN[e]
                if self.stream:
                    m = dict(e=e, ef=Tn + ef, df=Tn + df, arg=arg, parg=parg, i=i)
                    encs.append(STREAM_E % m)
                    decs.append(STREAM_D % m)
                    continue
                encs.append('''if (cmd[1] == '%s') { cap = %s%s; buf = malloc(cap ? cap : 1); if (attach) { memset(buf, 0xff, cap ? cap : 1); BitStream_AttachBuffer(&bs, buf, cap); } else BitStream_Init(&bs, buf, cap);
      ret = %s%s(%s, &bs, &err, TRUE); printf(" e%%d,%%d", ret, err); if (ret) { long long n = bitlen(&bs); printf(",%%lld,%%ld ", n, cap); hexout(buf, (n + 7) / 8); } } else''' % (e, Tn, rb, Tn, ef, arg))
                decs.append('''if (cmd[1] == '%s') { ret = %s%s(%s, &bs, &err); printf("d%%d,%%d,%%lld", ret, err, bitlen(&bs));
      if (ret) { printf(" |"); dp_%d(%s); printf(" | "); int verr = 0; flag ok = VALID_%s(%s, &verr); printf("v%%d,%%d", ok, verr);
        if (ok) { cap = %s%s; buf = malloc(cap ? cap : 1); BitStream_Init(&bs, buf, cap); err = 0; ret = %s%s(%s, &bs, &err, TRUE); printf(" e%%d,%%d", ret, err);
          if (ret) { long long m = bitlen(&bs); printf(",%%lld,%%ld ", m, cap); hexout(buf, (m + 7) / 8);
            unsigned char *b2 = malloc((size_t)((m + 7) / 8) + 1); memcpy(b2, buf, (size_t)((m + 7) / 8)); BitStream_AttachBuffer(&bs, b2, (long)((m + 7) / 8));
            %s *p2 = new_%d(junk); err = 0; ret = %s%s(%s, &bs, &err); printf(" r%%d,%%d,%%lld |", ret, err, bitlen(&bs)); if (ret) dp_%d(%s); free(p2); free(b2); } } } } else''' %
                            (e, Tn, df, parg, i, arg, Tn, arg, Tn, rb, Tn, ef, arg, Tn, i, Tn, df, "*p2" if isstr else "p2", i, "*p2" if isstr else "p2"))
            eq = init = 'printf("nocmd");'
            if self.equal and wanted:
                eq = 'printf("q%%d,%%d,%%d,%%d", %s_Equal(%s, %s), %s_Equal(%s, %s), %s_Equal(%s, %s), %s_Equal(%s, %s));' % (Tn, arg, qarg, Tn, qarg, arg, Tn, arg, arg, Tn, qarg, qarg)
            if self.init and wanted:
                init = self.init_code(Tn, i, arg, parg, isstr)
            o.append((TYPE_S if self.stream else TYPE) % dict(name=a.name, T=Tn, i=i, parg=parg, qarg=qarg, arg=arg, encs="\n    ".join(encs), decs="\n    ".join(decs), eq=eq, init=init))
            out.append("\n".join(o))
        out.append(self.extra())
        out.append("static void dispatch(int id, const char *cmd) { switch (id) {\n" +
                   "\n".join("case %d: cmd_%d(cmd); break;" % (i, i) for i in range(len(self.g.types))) + self.extra_cases() + "\ndefault: printf(\"noid\"); } }")
        out.append(MAIN)
        return "\n".join(out)

    def expand(self, t):
        """top level: never call the function of the type itself"""
        return t

    def init_code(self, Tn, i, arg, parg, isstr):
        e = "u" if "u" in self.encs else "a"
        ef, df, rb = self.FN[e]
        cst = "static const %s K = %s_constant; memcpy(p, &K, sizeof K);" % (Tn, Tn)
        return '''%s_Initialize(%s); printf("|"); dp_%d(%s); ret = VALID_%s(%s, &err); printf(" | v%%d,%%d", ret, err);
    { long cap = %s%s; unsigned char *buf = malloc(cap ? cap : 1); BitStream bs; BitStream_Init(&bs, buf, cap); err = 0; if (ret) { ret = %s%s(%s, &bs, &err, TRUE); printf(" e%%d,%%d,%%lld", ret, err, bitlen(&bs)); } free(buf); }
    %s printf(" |"); dp_%d(%s); ''' % (Tn, parg, i, arg, Tn, arg, Tn, rb, Tn, ef, arg, cst, i, arg)

    def xer_enc(self, Tn, arg):
        return ('''if (cmd[1] == 'x') { cap = %s_REQUIRED_BYTES_FOR_XER_ENCODING; buf = calloc(1, cap + 1); ByteStream xs; ByteStream_Init(&xs, buf, cap);
      ret = %s_XER_Encode(%s, &xs, &err, TRUE); printf(" e%%d,%%d", ret, err); if (ret) { long n = ByteStream_GetLength(&xs); printf(",%%ld,%%ld ", n, cap); hexout(buf, n); } } else''' % (Tn, Tn, arg))

    def xer_dec(self, Tn, i, arg, parg):
        return ('''if (cmd[1] == 'x') { ByteStream xs; ByteStream_AttachBuffer(&xs, ex, (long)n); ret = %s_XER_Decode(%s, &xs, &err); printf("d%%d,%%d,%%ld", ret, err, (long)xs.currentByte);
      if (ret) { printf(" |"); dp_%d(%s); printf(" | "); int verr = 0; flag ok = VALID_%s(%s, &verr); printf("v%%d,%%d", ok, verr); } } else''' % (Tn, parg, i, arg, Tn, arg))

    def extra(self):
        o = []
        base_id = len(self.g.types)
        for j, (n, a, v) in enumerate(self.g.values):
            b, _ = base(a.t)
            cn = self.prefix_v + self.name(n) if hasattr(self, "prefix_v") else self.name(n)
            o.append("static void val_%d(void) { printf(\"|\"); dp_%d(%s%s); }" % (j, self.index[a.name], "" if b.kind == "STR" else "&", cn))
        return "\n".join(o)

    def extra_cases(self):
        return "\n" + "\n".join("case %d: val_%d(); break;" % (len(self.g.types) + j, j) for j in range(len(self.g.values)))


# ------------------------------------------------------------------ token text of values
def tokens(t, v, o=None):
    top = o is None
    if top:
        o = []
    b, _ = base(t)
    k = b.kind
    if k in ("INT", "ENUM"):
        o.append(str(v))
    elif k == "BOOL":
        o.append("1" if v else "0")
    elif k == "NULL":
        pass
    elif k == "REAL":
        o.append("%x" % (v if not isnan_bits(v) else 0x7ff8000000000000))
    elif k == "STR":
        o.append("s" + v.encode("latin-1").hex())
    elif k == "OCT":
        o.append("%d:%s" % (len(v), v.hex()))
    elif k == "BIT":
        s = v + "0" * (-len(v) % 8)
        o.append("%d:%s" % (len(v), (int(s, 2).to_bytes(len(s) // 8, "big").hex() if s else "")))
    elif k in ("SEQOF", "SETOF"):
        o.append(str(len(v)))
        for x in v:
            tokens(b.elem, x, o)
    elif k in ("SEQ", "SET"):
        for c in b.children:
            if c.acn is not None:
                continue
            if c.opt:
                o.append("1" if c.name in v else "0")
                if c.name not in v:
                    if c.opt == "DEFAULT":
                        tokens(c.t, c.default, o)
                    continue
            tokens(c.t, v[c.name], o)
    elif k == "CHOICE":
        i = [c.name for c in b.children].index(v[0])
        o.append(str(i + 1))
        tokens(b.children[i].t, v[1], o)
    elif k in ("OCTCONT", "BITCONT"):
        tokens(T("REF", ref=b.ref), v, o)
    elif k in ("OID", "ROID"):
        o.append(str(len(v)))
        o += [str(x) for x in v]
    else:
        raise ValueError(k)
    return " ".join(o) if top else None


def isnan_bits(v):
    return (v >> 52) & 0x7FF == 0x7FF and v & ((1 << 52) - 1) != 0
