/* Drives the BER primitives: one command per line, buffers of exactly the advertised size. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "asn1crt_encoding_ber.h"

static char *line; static size_t linecap;
static char *tok(void) { char *t = strtok(NULL, " \n"); if (!t) { fprintf(stderr, "HARNESS missing token\n"); exit(97); } return t; }

static byte *unhex(const char *h, int *n)
{
    int i; byte *p;
    *n = strcmp(h, "-") ? (int)strlen(h) / 2 : 0;
    p = malloc(*n ? (size_t)*n : 1);
    for (i = 0; i < *n; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); p[i] = (byte)v; }
    if (!*n) { free(p); p = malloc(0); }
    return p;
}

static void hex(const byte *p, int n) { int i; if (n <= 0) printf("-"); for (i = 0; i < n; i++) printf("%02x", p[i]); }

int main(void)
{
    while (getline(&line, &linecap, stdin) > 0) {
        char *c = strtok(line, " \n");
        int err = 0; flag r = 0;
        ByteStream s;
        if (!c) { printf("\n"); continue; }
        if (c[0] == 'E') {
            char k = tok()[0]; BerTag tag = (BerTag)strtoull(tok(), 0, 16); int cap = atoi(tok()); char *v = tok();
            byte *b = malloc((size_t)cap); int n; byte *p;
            memset(&s, 0, sizeof s);
            ByteStream_Init(&s, b, cap);
            switch (k) {
            case 'i': r = BerEncodeInteger(&s, tag, (asn1SccSint)strtoll(v, 0, 10), &err); break;
            case 'b': r = BerEncodeBoolean(&s, tag, v[0] == '1', &err); break;
            case 'r': { unsigned long long u = strtoull(v, 0, 16); double d; memcpy(&d, &u, 8); r = BerEncodeReal(&s, tag, d, &err); break; }
            case 'n': r = BerEncodeNull(&s, tag, &err); break;
            case 's': p = unhex(v, &n); r = BerEncodeIA5String(&s, tag, (char *)p, n, &err); free(p); break;
            case 'o': p = unhex(v, &n); r = BerEncodeOctetString(&s, tag, p, n, &err); free(p); break;
            case 'B': { int bits = atoi(tok()); p = unhex(v, &n); r = BerEncodeBitString(&s, tag, p, bits, &err); free(p); break; }
            case 't': r = BerEncodeTag(&s, tag, &err); break;
            case '<': r = BerEncodeLengthStart(&s, &err); break;
            case '>': r = BerEncodeLengthEnd(&s, &err); break;
            default: fprintf(stderr, "HARNESS kind\n"); exit(97);
            }
            printf("e%d %d %ld ", r != 0, err, (long)s.currentByte); hex(b, (int)s.currentByte <= cap ? (int)s.currentByte : cap); printf("\n");
            free(b);
        } else if (c[0] == 'D') {
            char k = tok()[0]; BerTag tag = (BerTag)strtoull(tok(), 0, 16); int n, max; byte *b = unhex(tok(), &n); byte *d;
            max = atoi(tok());
            memset(&s, 0, sizeof s);
            ByteStream_AttachBuffer(&s, b, n);
            d = malloc((size_t)(k == 'B' ? (max + 7) / 8 : max) + (k == 's'));
            memset(d, 0x5a, (size_t)(k == 'B' ? (max + 7) / 8 : max) + (k == 's'));
            if (k == 'i') { asn1SccSint v = 77; r = BerDecodeInteger(&s, tag, &v, &err); printf("d%d %d %ld %lld\n", r != 0, err, (long)s.currentByte, (long long)v); }
            else if (k == 'b') { flag v = 1; r = BerDecodeBoolean(&s, tag, &v, &err); printf("d%d %d %ld %d\n", r != 0, err, (long)s.currentByte, v != 0); }
            else if (k == 'r') { double v = 77; unsigned long long u; r = BerDecodeReal(&s, tag, &v, &err); memcpy(&u, &v, 8); printf("d%d %d %ld %llx\n", r != 0, err, (long)s.currentByte, u); }
            else if (k == 'n') { r = BerDecodeNull(&s, tag, &err); printf("d%d %d %ld -\n", r != 0, err, (long)s.currentByte); }
            else if (k == 's') { r = BerDecodeIA5String(&s, tag, (char *)d, max, &err); printf("d%d %d %ld ", r != 0, err, (long)s.currentByte); hex(d, max); printf("\n"); }
            else if (k == 'o') { int cnt = -77; r = BerDecodeOctetString(&s, tag, d, &cnt, max, &err); printf("d%d %d %ld %d ", r != 0, err, (long)s.currentByte, cnt); hex(d, cnt < max ? cnt : max); printf("\n"); }
            else if (k == 'B') { int cnt = -77; r = BerDecodeBitString(&s, tag, d, &cnt, max, &err); printf("d%d %d %ld %d ", r != 0, err, (long)s.currentByte, cnt); hex(d, ((cnt < max ? cnt : max) + 7) / 8); printf("\n"); }
            else if (k == 't') { r = BerDecodeTag(&s, tag, &err); printf("d%d %d %ld -\n", r != 0, err, (long)s.currentByte); }
            else if (k == 'm') { r = NextTagMatches(&s, tag); printf("d%d %d %ld -\n", r != 0, 0, (long)s.currentByte); }
            else if (k == 'l') { int v = -77; r = BerDecodeLength(&s, &v, &err); printf("d%d %d %ld %d\n", r != 0, err, (long)s.currentByte, v); }
            else if (k == 'z') { r = BerDecodeTwoZeroes(&s, &err); printf("d%d %d %ld -\n", r != 0, err, (long)s.currentByte); }
            else if (k == 'Z') { r = LA_Next_Two_Bytes_00(&s); printf("d%d %d %ld -\n", r != 0, 0, (long)s.currentByte); }
            else { fprintf(stderr, "HARNESS kind\n"); exit(97); }
            free(b); free(d);
        } else { fprintf(stderr, "HARNESS command\n"); exit(97); }
        fflush(stdout);
    }
    return 0;
}
