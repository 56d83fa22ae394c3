/* Line driven driver for the C runtime: one case per line, one result line per case.
   <mode> <cap> <hex|-> <startbit> { ; op args... }
   mode: I  BitStream_Init on <cap> bytes        A  AttachBuffer, contents = hex (cap bytes)
         E  streaming encode, chunk = cap        D  streaming decode, chunk = cap, source = hex
   result per op: r<ret>,p<bitpos>[,values]; then |<hex of the buffer (or of everything pushed)>
   Every buffer is an exact-size heap block so that the sanitizer sees the first byte too many. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include "asn1crt.h"
#include "asn1crt_encoding.h"
#include "asn1crt_encoding_uper.h"
#include "asn1crt_encoding_acn.h"

#define MAXTOK 4096
static char *tok[MAXTOK]; static int ntok, tp;
static void *arena[4096]; static int narena;
static void *xalloc(size_t n) { void *p = malloc(n ? n : 1); if (!p || narena >= 4096) abort();
    arena[narena++] = p;
    if (n == 0) { /* a zero byte object: any access is out of bounds */ free(p); p = malloc(0); arena[narena-1] = p; }
    return p; }
static const char *arg(void) { if (tp >= ntok) { fprintf(stderr, "HARNESS missing argument\n"); _exit(97); } return tok[tp++]; }
static unsigned long long argu(void) { return strtoull(arg(), NULL, 10); }
static long long args_(void) { return strtoll(arg(), NULL, 10); }
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static byte *argh(size_t *n) { const char *s = arg(); size_t l = strcmp(s, "-") == 0 ? 0 : strlen(s) / 2; size_t i; byte *b = xalloc(l);
    for (i = 0; i < l; i++) b[i] = (byte)(hexv(s[2*i]) * 16 + hexv(s[2*i+1]));
    if (n) *n = l;
    return b; }
static char *args0(void) { const char *s = arg(); size_t l = strcmp(s, "-") == 0 ? 0 : strlen(s) / 2; size_t i; char *b = xalloc(l + 1);
    for (i = 0; i < l; i++) b[i] = (char)(hexv(s[2*i]) * 16 + hexv(s[2*i+1]));
    b[l] = 0; return b; }
static double argd(void) { unsigned long long u = strtoull(arg(), NULL, 16); double d; memcpy(&d, &u, 8); return d; }
static void outhex(const void *p, size_t n) { const byte *b = p; static const char H[] = "0123456789abcdef"; size_t i;
    if (n == 0) { putchar('-'); return; }
    for (i = 0; i < n; i++) { putchar(H[b[i] >> 4]); putchar(H[b[i] & 15]); } }
static BitStream bs; static int skiprest;
static byte *sink; static size_t nsink, fetched; static int streaming_mode;
#ifdef ASN1SCC_STREAMING
static const byte *src; static size_t nsrc, psrc;
#endif
static AcnInsertedFieldRef dets[8]; static int det_err;
static long long position(void) { return (long long)((streaming_mode == 'E' ? nsink : streaming_mode == 'D' ? fetched : 0) + bs.currentByte) * 8 + bs.currentBit; }
static void res(flag r) { unsigned char x; memcpy(&x, &r, 1); printf(" r%u,p%lld", (unsigned)x, position()); if (!r) skiprest = 1; }
static void resv(void) { printf(" r1,p%lld", position()); }
#ifdef ASN1SCC_STREAMING
void fetchData(BitStream *s, void *prm) { size_t n = (size_t)s->count; (void)prm; fetched += n;
    memset(s->buf, 0xEE, n);                       /* stale data must never matter */
    if (psrc < nsrc) { size_t k = nsrc - psrc < n ? nsrc - psrc : n; memcpy(s->buf, src + psrc, k); psrc += k; } }
void pushData(BitStream *s, void *prm) { (void)prm; sink = realloc(sink, nsink + (size_t)s->count); memcpy(sink + nsink, s->buf, (size_t)s->count); nsink += (size_t)s->count;
    memset(s->buf, 0xEE, (size_t)s->count); }      /* whatever the application leaves there must never matter */
#endif
static int oidin(Asn1ObjectIdentifier *o) { int i, n = (int)args_(); memset(o, 0x5A, sizeof *o); o->nCount = n; for (i = 0; i < n; i++) o->values[i] = (asn1SccUint)argu(); return n; }
static void oidout(const Asn1ObjectIdentifier *o) { int i; printf(",%d", o->nCount); for (i = 0; i < o->nCount && i < OBJECT_IDENTIFIER_MAX_LENGTH; i++) printf(":%llu", (unsigned long long)o->values[i]); }
static void outd(double d) { unsigned long long u; memcpy(&u, &d, 8); printf(",%016llx", u); }
static void outf(float d) { unsigned u; memcpy(&u, &d, 4); printf(",%08x", u); }
