// Base64: encode, decode, capacities, malformed text.
#include "mc.h"
#include <u/libu.h>
const char *mc_property = "P04", *mc_level = "model_checking";
static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static size_t ref_enc(const uint8_t *in, size_t n, char *o)
{
    size_t k = 0;
    for (size_t i = 0; i < n; i += 3) {
        uint32_t v = (uint32_t)in[i] << 16 | (i + 1 < n ? in[i + 1] << 8 : 0) | (i + 2 < n ? in[i + 2] : 0);
        o[k++] = A[v >> 18]; o[k++] = A[v >> 12 & 63]; o[k++] = i + 1 < n ? A[v >> 6 & 63] : '='; o[k++] = i + 2 < n ? A[v & 63] : '=';
    }
    return k;
}
static int sx(unsigned char c) { const char *p = c ? strchr(A, c) : NULL; return p ? (int)(p - A) : -1; }
/* -1: malformed; otherwise decoded size; *canon: the unused bits are zero */
static int ref_dec(const unsigned char *in, size_t n, uint8_t *o, int *canon)
{
    size_t k = 0; *canon = 1;
    if (n == 0 || n % 4) return -1;
    for (size_t i = 0; i < n; i += 4) {
        int last = i + 4 == n, v[4], pad = 0;
        for (int j = 0; j < 4; j++) {
            if (in[i + j] == '=') { if (!last || j < 2) return -1; pad++; v[j] = 0; }
            else { if (pad) return -1; v[j] = sx(in[i + j]); if (v[j] < 0) return -1; }
        }
        uint32_t w = (uint32_t)v[0] << 18 | v[1] << 12 | v[2] << 6 | v[3];
        if (pad == 1 && (w & 0xff)) *canon = 0;
        if (pad == 2 && (w & 0xffff)) *canon = 0;
        o[k++] = (uint8_t)(w >> 16); if (pad < 2) o[k++] = (uint8_t)(w >> 8); if (pad < 1) o[k++] = (uint8_t)w;
    }
    return (int)k;
}
/* every buffer is an exact heap block so that ASan sees one byte too many */
static void enc_one(const uint8_t *in, size_t n, size_t cap)
{
    static char ref[420000]; size_t k = ref_enc(in, n, ref);
    uint8_t *x = malloc(n ? n : 1); memcpy(x, in, n);
    char *o = malloc(cap ? cap : 1); memset(o, 0x7B, cap ? cap : 1);
    int rc = u_b64_encode(x, n, o, cap);
    mc_transitions(1);
    if (n == 0 || cap < k) MC_CHECK(rc != 0, "enc-fits", "encoding %zu bytes into %zu characters succeeded", n, cap);
    else {
        MC_CHECK(rc == 0, "enc-failed", "encoding %zu bytes (%s) into %zu characters failed", n, mc_esc(in, n), cap);
        MC_CHECK(!memcmp(o, ref, k), "enc-text", "encoding of %s is %.*s, expected %.*s", mc_esc(in, n), (int)k, o, (int)k, ref);
        if (cap > k) MC_CHECK(o[k] == 0, "enc-term", "encoded text not terminated");
        for (size_t i = k + 1; i < cap; i++) MC_CHECK(o[i] == 0x7B, "enc-over", "encoding touched byte %zu of %zu", i, cap);
    }
    free(x); free(o);
}
static void dec_one(const unsigned char *in, size_t n, size_t cap, int must_canon)
{
    static uint8_t ref[420000]; int canon, k = ref_dec(in, n, ref, &canon);
    char *x = malloc(n ? n : 1); memcpy(x, in, n);
    uint8_t *o = malloc(cap ? cap : 1); memset(o, 0x7B, cap ? cap : 1); size_t sz = cap;
    int rc = u_b64_decode(x, n, o, &sz);
    mc_transitions(1);
    if (k < 0) MC_CHECK(rc != 0, "dec-malformed", "malformed text \"%s\" decoded to %zu bytes", mc_esc(in, n), sz);
    else if (cap < (size_t)k) MC_CHECK(rc != 0, "dec-fits", "\"%s\" decoded into %zu bytes, needs %d", mc_esc(in, n), cap, k);
    else if (rc != 0) MC_CHECK(!canon, "dec-failed", "well-formed \"%s\" refused (capacity %zu, needs %d)", mc_esc(in, n), cap, k);
    else {
        MC_CHECK(sz == (size_t)k, "dec-size", "\"%s\" decoded to %zu bytes, expected %d", mc_esc(in, n), sz, k);
        MC_CHECK(!memcmp(o, ref, (size_t)k), "dec-bytes", "\"%s\" decoded to %s, expected %s", mc_esc(in, n), mc_esc(o, (size_t)k), mc_esc(ref, (size_t)k));
        for (size_t i = (size_t)k; i < cap; i++) MC_CHECK(o[i] == 0x7B, "dec-over", "decoding touched byte %zu of %zu, beyond the %d decoded", i, cap, k);
    }
    (void) must_canon; free(x); free(o);
}
static void round_trip(const uint8_t *in, size_t n)
{
    char t[600]; uint8_t back[600]; size_t bs = n;
    uint8_t *o = malloc(n); size_t tl;
    MC_CHECK(u_b64_encode(in, n, t, sizeof t) == 0, "enc-failed", "encoding failed");
    tl = strlen(t); MC_CHECK(tl == U_B64_LENGTH(n), "enc-length", "%zu bytes gave %zu characters, the documented size is %d", n, tl, (int)U_B64_LENGTH(n));
    MC_CHECK(u_b64_decode(t, tl, o, &bs) == 0 && bs == n && !memcmp(o, in, n), "roundtrip", "%s does not come back (%zu bytes)", mc_esc(in, n), bs);
    memcpy(back, o, n); free(o); mc_transitions(2);
    mc_outcome(mc_hash(1, in, n));
}
/* all byte strings of length 1..2, and all 3-byte strings (thorough: complete) */
static void bytes(void)
{
    int n = 1 + mc_choose(3), a = mc_choose(256);
    uint8_t in[3] = { (uint8_t)a }; mc_op("first byte %02x, %d bytes", a, n);
    if (n == 1) { for (size_t c = 0; c < 8; c++) enc_one(in, 1, c); round_trip(in, 1); return; }
    for (int b = 0; b < 256; b++) {
        in[1] = (uint8_t)b;
        if (n == 2) { for (size_t c = 0; c < 8; c++) enc_one(in, 2, c); round_trip(in, 2); mc_state(mc_hash(2, in, 2)); continue; }
        for (int c = 0; c < 256; c += mc_tier ? 1 : 15) { in[2] = (uint8_t)c; enc_one(in, 3, 4 + c % 4); round_trip(in, 3); }
    }
}
/* longer strings, every capacity */
static void longer(void)
{
    static const uint8_t al[] = { 0x00, 0xff, 0x80, 'A', 0x3f };
    int n = 4 + mc_choose(mc_tier ? 5 : 3); uint8_t in[16];
    for (int i = 0; i < n; i++) in[i] = al[mc_choose(i < 2 ? 5 : 3)];
    mc_op("bytes %s", mc_esc(in, (size_t)n));
    size_t k = U_B64_LENGTH((size_t)n);
    for (size_t c = 0; c <= k + 3; c++) enc_one(in, (size_t)n, c);
    char t[64]; ref_enc(in, (size_t)n, t);
    for (size_t c = 0; c <= (size_t)n + 3; c++) dec_one((unsigned char *)t, k, c, 1);
    round_trip(in, (size_t)n);
}
static void lengths(void)
{
    int n = 1 + mc_choose(380); uint8_t in[400]; mc_op("length %d", n);
    for (int i = 0; i < n; i++) in[i] = (uint8_t)(i * 73 + n);
    size_t k = U_B64_LENGTH((size_t)n); char t[600]; ref_enc(in, (size_t)n, t);
    for (int d = -4; d <= 2; d++) { if ((int)k + d >= 0) enc_one(in, (size_t)n, (size_t)((int)k + d)); if (n + d >= 0) dec_one((unsigned char *)t, k, (size_t)(n + d), 1); }
    round_trip(in, (size_t)n);
}
static void scale(void)
{
    static const size_t N[] = { 511, 512, 766, 767, 768, 769, 1023, 1024, 1025, 1535, 1536, 2047, 2048, 3070, 3071, 3072, 3073, 4095, 4096, 4097, 6143, 6144, 8192, 12287, 12288, 16384, 24575, 32766, 32767, 32768, 49150, 49151, 49152, 49153, 65535, 65536, 65537, 98303, 98304, 131072, 196607, 196608, 300000 };
    size_t n = N[mc_choose(sizeof N / sizeof *N)], k = U_B64_LENGTH(n); int pat = mc_choose(3); uint8_t *in = malloc(n); char *t = malloc(k + 1); for (size_t i = 0; i < n; i++) in[i] = pat == 0 ? (uint8_t)(i * 73 + i / 256 * 5 + n) : pat == 1 ? 0 : 0xff; ref_enc(in, n, t); mc_op("length %zu, pattern %d", n, pat);
    for (int d = -4; d <= 1; d++) { enc_one(in, n, k + d); dec_one((unsigned char *)t, k, n + d, 1); } free(in); free(t); mc_state(mc_h64(n, pat));
}
/* text: every byte at every place of short texts */
static void anybyte(void)
{
    static const char *base[] = { "QUJD", "QUI=", "QQ==", "QUJDREVG", "QUJDREU=", "QUJDRA==", "/+/+", "AAAA" };
    const char *t = base[mc_choose(8)]; size_t n = strlen(t); unsigned char x[16]; memcpy(x, t, n);
    int p = mc_choose((int)n), v = mc_choose(256); x[p] = (unsigned char)v;
    mc_op("text %s", mc_esc(x, n));
    for (size_t c = 0; c <= n; c++) dec_one(x, n, c, 0);
    mc_outcome(mc_hash(n, x, n));
}
/* text over a class alphabet */
static void texts(void)
{
    static const char al[] = "A/z9=";
    static const char al2[] = "AB=*\x80 ";
    int which = mc_choose(2), top = mc_tier ? 9 : 8; if (which) top -= 1;
    int n = mc_choose(top + 1); unsigned char x[16];
    int na = which ? 6 : 5;
    for (int i = 0; i < n; i++) x[i] = (unsigned char)(which ? al2 : al)[mc_choose(na)];
    mc_op("text %s", mc_esc(x, (size_t)n));
    dec_one(x, (size_t)n, (size_t)n, 0); dec_one(x, (size_t)n, 1, 0); if (n > 4) dec_one(x, (size_t)n, 4, 0);
    mc_state(mc_hash((uint64_t)n, x, (size_t)n));
}
static void pairs(void)     /* all 64x64x64x64 quanta would be 16M: all pairs at all place pairs */
{
    int p = mc_choose(4), q = mc_choose(4), a = mc_choose(65); if (p == q) mc_discard();
    mc_op("quantum places %d,%d first '%c'", p, q, a == 64 ? '=' : A[a]);
    for (int b = 0; b < 65; b++) { unsigned char x[4] = { 'K', 'b', '7', '/' }; x[p] = a == 64 ? '=' : (unsigned char)A[a]; x[q] = b == 64 ? '=' : (unsigned char)A[b]; for (size_t c = 0; c < 5; c++) dec_one(x, 4, c, 0); }
}
static void refused(void)
{
    int c = mc_choose(4); char t[8]; uint8_t b[8]; size_t z = 8; mc_op("refused %d", c);
    switch (c) {
    case 0: MC_CHECK(u_b64_encode(NULL, 3, t, 8) != 0 && u_b64_encode(b, 3, NULL, 8) != 0, "null", "NULL accepted"); break;
    case 1: MC_CHECK(u_b64_decode(NULL, 4, b, &z) != 0 && u_b64_decode("AAAA", 4, NULL, &z) != 0, "null", "NULL accepted"); break;
    case 2: MC_CHECK(u_b64_decode("AAAA", 4, b, NULL) != 0, "null", "NULL accepted"); break;
    case 3: MC_CHECK(u_b64_decode("", 0, b, &z) != 0, "empty", "empty text accepted"); break;
    }
}
const struct mc_scn mc_scns[] = {
    { "bytes", bytes, MC_QT, 2, 0, 0, 0, "all 1- and 2-byte inputs; 3-byte inputs with every fifteenth (every) last byte; capacities around the exact one" },
    { "longer", longer, MC_QT, 3, 0, 0, 0, "inputs of 4..6 (8) bytes over a 5-value alphabet, every output capacity in both directions" },
    { "lengths", lengths, MC_QT, 1, 0, 0, 0, "every length 1..380, capacities -4..+2 around the exact ones" },
    { "scale", scale, MC_QT, 1, 0, 0, 0, "43 lengths from 511 to 300000 in 3 patterns, capacities -4..+1 around the exact ones" },
    { "anybyte", anybyte, MC_QT, 2, 0, 0, 0, "every byte value at every place of 8 texts, every capacity" },
    { "texts", texts, MC_QT, 4, 0, 0, 0, "every text up to 8 (9) characters over {A,/,z,9,=}, up to 7 (8) over {A,B,=,*,0x80,blank}" },
    { "pairs", pairs, MC_QT, 2, 0, 0, 0, "every pair of alphabet characters at every two places of a quantum, every capacity" },
    { "refused", refused, MC_QT, 0, 0, 0, 0, "NULL and empty arguments" },
    { 0 }
};
