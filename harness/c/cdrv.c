/* Drives the C bindings through the public header. One command per line on
 * stdin, one JSON object per command on stdout; see lib/cimpl.py for the
 * command list. Handle or slot -1 is a NULL pointer. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <valgrind/memcheck.h>
#include "polyglot.h"

#ifdef COUNT                                     /* memory asked for, by anyone in the process */
static long asked;
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
void *malloc(size_t n) { asked += n; return __libc_malloc(n); }
void *calloc(size_t a, size_t n) { asked += a * n; return __libc_calloc(a, n); }
void *realloc(void *p, size_t n) { asked += n; return __libc_realloc(p, n); }
void *memalign(size_t a, size_t n) { asked += n; return __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { asked += n; return __libc_memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { asked += n; *p = __libc_memalign(a, n); return *p ? 0 : 12; }
#else
static long asked = -1;
#endif

#define H 4096
static polyglot_encoder_t *E[H];
static polyglot_decoder_t *D[H];
static uint8_t *IN[H]; static long INL[H];       /* the caller's input buffers */
static uint8_t *SH[H]; static long SHL[H];       /* shadow of the encoder output */
static struct { int kind; void *p; } S[H];

/* see BlobPat in Wire.tla */
static long blob_len(long m) { return m < 17 << 24 ? m : m & ((1 << 24) - 1); }
static unsigned char pat(long i, long m) {
    long n = blob_len(m), p = m < 17 << 24 ? 0 : (m >> 24) - 16;
    if (p == 2 && i == n / 2) return 0xff;
    if (p == 3 && i == n - 1) return 0xc3;
    if (p == 4 && i == n / 2) return 0;
    if ((p == 1 || p == 2) && i >= n % 9) {
        long j = (i - n % 9) / 9, k = (i - n % 9) % 9;
        if (k == 1 || k == 4 || k == 8) return 0x80 + (unsigned char)((j * 7 + n) % 64);
        return (unsigned char)"\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80"[k];
    }
    return 'a' + (unsigned char)((i * 7 + n + (i >> 8)) % 26);
}
static int is_pat(const uint8_t *b, long m) { long n = blob_len(m); for (long i = 0; i < n; i++) if (b[i] != pat(i, m)) return 0; return 1; }
static long any_pat(const uint8_t *b, long n) {
    if (is_pat(b, n)) return n;
    for (long p = 1; n < 1 << 24 && p < 5; p++) if (is_pat(b, (16 + p) << 24 | n)) return (16 + p) << 24 | n;
    return 0;
}

static char *tok; static char *save;
static char *next(void) { tok = strtok_r(NULL, " \n", &save); return tok; }
static long num(void) { return next() ? atol(tok) : 0; }

/* "n item..." where an item is a byte or ~len for a blob; n = -1 gives NULL */
static uint8_t *payload(long *len) {
    long n = num(); *len = 0;
    if (n < 0) return NULL;
    long cap = 0; long *it = malloc((n + 1) * sizeof(long)); 
    for (long i = 0; i < n; i++) { next(); if (tok[0] == '~') { it[i] = -atol(tok + 1); cap += blob_len(-it[i]); } else { it[i] = atol(tok); cap++; } }
    uint8_t *b = malloc(cap ? cap : 1); long p = 0;
    for (long i = 0; i < n; i++) { if (it[i] < 0) { for (long j = 0; j < blob_len(-it[i]); j++) b[p++] = pat(j, -it[i]); } else b[p++] = (uint8_t)it[i]; }
    free(it); *len = cap; return b;
}
static void ints(const uint8_t *b, long n) { for (long i = 0; i < n; i++) printf(i ? ",%d" : "%d", b[i]); }
static void value(const uint8_t *b, long n) {
    printf("\"v\":[");
    long m = n > 256 ? any_pat(b, n) : 0;
    if (m) printf("%ld", -m);
    else if (n > 2048) { ints(b, 64); printf(",-1"); }
    else ints(b, n);
    printf("]");
}
static uint64_t u(const uint8_t *b, long n) { uint64_t r = 0; for (long i = 0; i < n; i++) r = r << 8 | b[i]; return r; }
static void be(uint64_t n, int w) { uint8_t b[8]; for (int i = 0; i < w; i++) b[w - 1 - i] = (uint8_t)(n >> (8 * i)); value(b, w); }
#define HD(a, h) ((h) < 0 ? NULL : a[h])

/* the status sits between guards: a wider write shows */
static struct { uint8_t a[8]; polyglot_status_t s; uint8_t b[8]; } G;
#define st G.s
static long broken;
static void guard(int prior) { memset(&G, 0x5C, sizeof G); st = (polyglot_status_t)prior; }
static void check(void) { for (int i = 0; i < 8; i++) if (G.a[i] != 0x5C || G.b[i] != 0x5C) { broken++; return; } }

/* what this driver itself has allocated */
static long own(void) { long n = 0; for (int i = 0; i < H; i++) { if (IN[i]) n += INL[i] ? INL[i] : 1; if (SH[i]) n += SHL[i] ? SHL[i] : 1; } return n; }
static long heap(long *lost) {
    unsigned long a = 0, b = 0, c = 0, d = 0;
    VALGRIND_DO_QUICK_LEAK_CHECK; VALGRIND_COUNT_LEAKS(a, b, c, d);
    *lost = (long)(a + b); return (long)(a + b + c + d) - own();
}

int main(void) {
    size_t cap = 1 << 20; char *line = malloc(cap);
    int prior = 0x77; long base = 0, lost0 = 0, err0 = 0;
    static char obuf[1 << 16];
    setvbuf(stdout, obuf, _IOLBF, sizeof obuf);
    while (getline(&line, &cap, stdin) > 0) {
        char *op = strtok_r(line, " \n", &save);
        if (!op) continue;
        guard(prior); long n;
        if (!strcmp(op, "case")) {
            prior = 0x77; broken = 0;
            if (RUNNING_ON_VALGRIND) { base = heap(&lost0); err0 = (long)VALGRIND_COUNT_ERRORS; }
            printf("BEGIN %ld\n", num()); fflush(stdout); continue; }
        if (!strcmp(op, "ps")) { prior = (int)num(); continue; }
        if (!strcmp(op, "mem")) {   /* errors so far; what the library holds; what nobody points to */
            long lost = 0, h = 0, e = 0;
            if (RUNNING_ON_VALGRIND) { h = heap(&lost); e = (long)VALGRIND_COUNT_ERRORS; }
            printf("{\"n\":%ld,\"a\":%ld,\"b\":%ld,\"vg\":%d}\n", e - err0 + broken, h - base, lost - lost0, (int)RUNNING_ON_VALGRIND); continue; }
        if (!strcmp(op, "end")) { printf("END\n"); fflush(stdout); continue; }
        if (!strcmp(op, "ne")) { long h = num(); E[h] = polyglot_new_encoder(&st); free(SH[h]); SH[h] = NULL; SHL[h] = 0; printf("{\"st\":%d,\"null\":%s}\n", st, E[h] ? "false" : "true"); }
        else if (!strcmp(op, "fe")) { long h = num(); polyglot_free_encoder(HD(E, h)); if (h >= 0) E[h] = NULL; printf("{}\n"); }
        else if (!strcmp(op, "en")) {
            long h = num(), k = num(), a = num(), b = num(); uint8_t *p = payload(&n);
            uint8_t *cp = malloc(n + 1); if (p) memcpy(cp, p, n); cp[n] = 0;
            polyglot_encoder_t *e = HD(E, h);
            switch (k) {
            case 0: polyglot_encode_none(&st, e); break;
            case 1: polyglot_encode_array(&st, e, (uint32_t)u(p, n), (polyglot_kind_t)a); break;
            case 2: polyglot_encode_map(&st, e, (uint32_t)u(p, n), (polyglot_kind_t)a, (polyglot_kind_t)b); break;
            case 4: polyglot_encode_bytes(&st, e, p, (uint32_t)n); break;
            case 5: polyglot_encode_string(&st, e, p ? (char *)cp : NULL); break;
            case 6: polyglot_encode_error(&st, e, p ? (char *)cp : NULL); break;
            case 7: polyglot_encode_bool(&st, e, p[0] != 0); break;
            case 8: polyglot_encode_u8(&st, e, p[0]); break;
            case 9: polyglot_encode_u16(&st, e, (uint16_t)u(p, n)); break;
            case 10: polyglot_encode_u32(&st, e, (uint32_t)u(p, n)); break;
            case 11: polyglot_encode_u64(&st, e, u(p, n)); break;
            case 12: polyglot_encode_i32(&st, e, (int32_t)(uint32_t)u(p, n)); break;
            case 13: polyglot_encode_i64(&st, e, (int64_t)u(p, n)); break;
            case 14: { uint32_t x = (uint32_t)u(p, n); float f; memcpy(&f, &x, 4); polyglot_encode_f32(&st, e, f); break; }
            case 15: { uint64_t x = u(p, n); double f; memcpy(&f, &x, 8); polyglot_encode_f64(&st, e, f); break; }
            }
            int ok = !p || !memcmp(cp, p, n);
            if (p) memset(p, 0xA5, n);
            free(p); free(cp);
            printf("{\"st\":%d,\"ok\":%s}\n", st, ok ? "true" : "false");
        }
        else if (!strcmp(op, "sz")) { long h = num(); uint32_t z = polyglot_encoder_size(&st, HD(E, h)); printf("{\"st\":%d,\"n\":%u}\n", st, z); }
        else if (!strcmp(op, "eb")) {  /* copy out into a caller buffer of a given size */
            long h = num(); long c = num(); uint8_t *b = NULL;
            if (c >= 0) { b = malloc(c ? c : 1); memset(b, 0xEE, c ? c : 1); }
            polyglot_encoder_buffer(&st, HD(E, h), b, c < 0 ? 16 : (uint32_t)c);
            printf("{\"st\":%d,", st); value(b ? b : (uint8_t *)"", c < 0 ? 0 : c); printf("}\n"); free(b);
        }
        else if (!strcmp(op, "ob")) {  /* the whole output: prefix check and delta */
            long h = num(); long blob = num(); polyglot_status_t s2 = 0x77;
            uint32_t z = polyglot_encoder_size(&s2, E[h]);
            uint8_t *b = malloc(z ? z : 1);
            polyglot_encoder_buffer(&st, E[h], b, z);
            int ok = (long)z >= SHL[h] && (SHL[h] == 0 || !memcmp(b, SH[h], SHL[h]));
            long dl = (long)z >= SHL[h] ? (long)z - SHL[h] : 0; uint8_t *d = b + z - dl;
            printf("{\"st\":%d,\"n\":%u,\"ok\":%s,\"d\":[", st, z, ok ? "true" : "false");
            long bl = blob_len(blob);
            if (blob > 0 && dl >= bl && is_pat(d + dl - bl, blob)) { ints(d, dl - bl); printf(dl > bl ? ",%ld" : "%ld", -blob); }
            else if (dl > 2048) { ints(d, 64); printf(",-1"); } else ints(d, dl);
            printf("]}\n"); free(SH[h]); SH[h] = b; SHL[h] = z;
        }
        else if (!strcmp(op, "nd")) { long h = num(); uint8_t *p = payload(&n); free(IN[h]); IN[h] = p; INL[h] = n; D[h] = polyglot_new_decoder(&st, p, (uint32_t)n); printf("{\"st\":%d,\"null\":%s}\n", st, D[h] ? "false" : "true"); }
        else if (!strcmp(op, "no")) { /* new decoder over an encoder's output */
            long h = num(), e = num(); polyglot_status_t s2; uint32_t z = polyglot_encoder_size(&s2, E[e]);
            free(IN[h]); IN[h] = malloc(z ? z : 1); INL[h] = z; polyglot_encoder_buffer(&s2, E[e], IN[h], z);
            D[h] = polyglot_new_decoder(&st, IN[h], z); printf("{\"st\":%d,\"null\":%s,\"n\":%u}\n", st, D[h] ? "false" : "true", z); }
        else if (!strcmp(op, "fd")) { long h = num(); polyglot_free_decoder(HD(D, h)); if (h >= 0) D[h] = NULL; printf("{}\n"); }
        else if (!strcmp(op, "cl")) { long h = num(); int x = (int)num(); memset(IN[h], x, INL[h]); printf("{}\n"); }
        else if (!strcmp(op, "fi")) { long h = num(); free(IN[h]); IN[h] = NULL; INL[h] = 0; printf("{}\n"); }
        else if (!strcmp(op, "de")) {
            long h = num(), k = num(), a = num(), b = num(), s = num(); polyglot_decoder_t *d = HD(D, h);
            int w = 0; uint64_t r = 0; void *ptr = NULL; int isptr = 0; long was = asked;
            switch (k) {
            case 0: r = polyglot_decode_none(&st, d); w = 1; break;
            case 1: r = polyglot_decode_array(&st, d, (polyglot_kind_t)a); w = 4; break;
            case 2: r = polyglot_decode_map(&st, d, (polyglot_kind_t)a, (polyglot_kind_t)b); w = 4; break;
            case 4: ptr = polyglot_decode_bytes(&st, d); isptr = 1; break;
            case 5: ptr = polyglot_decode_string(&st, d); isptr = 1; break;
            case 6: ptr = polyglot_decode_error(&st, d); isptr = 1; break;
            case 7: r = polyglot_decode_bool(&st, d); w = 1; break;
            case 8: r = polyglot_decode_u8(&st, d); w = 1; break;
            case 9: r = polyglot_decode_u16(&st, d); w = 2; break;
            case 10: r = polyglot_decode_u32(&st, d); w = 4; break;
            case 11: r = polyglot_decode_u64(&st, d); w = 8; break;
            case 12: r = (uint32_t)polyglot_decode_i32(&st, d); w = 4; break;
            case 13: r = (uint64_t)polyglot_decode_i64(&st, d); w = 8; break;
            case 14: { float f = polyglot_decode_f32(&st, d); uint32_t x; memcpy(&x, &f, 4); r = x; w = 4; break; }
            case 15: { double f = polyglot_decode_f64(&st, d); memcpy(&r, &f, 8); w = 8; break; }
            }
            was = asked < 0 ? -1 : asked - was;
            printf("{\"st\":%d,\"mem\":%ld,\"null\":%s,", st, was, isptr && !ptr ? "true" : "false");
            if (isptr) {
                if (!ptr) printf("\"v\":[]");
                else if (k == 4) value(((polyglot_buffer_t *)ptr)->data, ((polyglot_buffer_t *)ptr)->length);
                else value((uint8_t *)ptr, (long)strlen(ptr));
                if (s >= 0) { S[s].kind = (int)k; S[s].p = ptr; }
            } else be(r, w);
            printf("}\n");
        }
        else if (!strcmp(op, "ck")) { long s = num(); void *ptr = S[s].p; printf("{"); 
            if (!ptr) printf("\"v\":[]"); else if (S[s].kind == 4) value(((polyglot_buffer_t *)ptr)->data, ((polyglot_buffer_t *)ptr)->length); else value((uint8_t *)ptr, (long)strlen(ptr)); printf("}\n"); }
        else if (!strcmp(op, "sc")) { long s = num(); int x = (int)num(); void *ptr = S[s].p;   /* the value's owner writes all over it */
            if (ptr && S[s].kind == 4) memset(((polyglot_buffer_t *)ptr)->data, x, ((polyglot_buffer_t *)ptr)->length);
            else if (ptr) memset(ptr, x, strlen(ptr));
            printf("{}\n"); }
        else if (!strcmp(op, "fr")) { long s = num(); long k = num(); void *ptr = s < 0 ? NULL : S[s].p; if (s >= 0) { k = S[s].kind; S[s].p = NULL; }
            if (k == 4) polyglot_free_decode_bytes(ptr); else if (k == 5) polyglot_free_decode_string(ptr); else polyglot_free_decode_error(ptr); printf("{}\n"); }
        else if (!strcmp(op, "wr")) { /* the caller may write to a returned buffer */
            long s = num(); int x = (int)num(); void *ptr = S[s].p; if (ptr && S[s].kind == 4) memset(((polyglot_buffer_t *)ptr)->data, x, ((polyglot_buffer_t *)ptr)->length); else if (ptr) memset(ptr, x, strlen(ptr)); printf("{}\n"); }
        else { printf("{\"bad\":\"%s\"}\n", op); }
        check();
    }
    for (int i = 0; i < H; i++) { free(IN[i]); free(SH[i]); }
    free(line);
    return 0;
}
