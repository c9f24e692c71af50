/* Formatting stand-ins: the displayed text is abstracted to the value that was formatted and where. */
#include "vp_ghost.h"
#include "format.h"
#include "base58.h"
#include "bip32.h"

/* the digits of a number: 1 to 21 characters (2^64-1 with a decimal point), all the same here */
static uint8_t vp_number(char *dst, size_t n) {
    uint8_t l = ND_U8("digits");
    VP_ASSUME(l >= 1 && l <= 21);
    CHECK(n > 21, "text buffer takes every number");
    for (uint8_t i = 0; i < 21; i++) dst[i] = i < l ? '7' : 0;
    dst[l] = 0;
    return l;
}

bool format_u64(char *dst, size_t dst_len, uint64_t value) {
    CHECK(dst_len > 0, "text buffer is not empty");
    GD.u64s = vp_inc(GD.u64s);
    GD.u64 = value;
    GD.u64_dst = dst;
    GD.num_len = vp_number(dst, dst_len);
    return true;
}

bool format_fpu64(char *dst, size_t dst_len, const uint64_t value, uint8_t decimals) {
    CHECK(dst_len > 0, "text buffer is not empty");
    GD.fpus = vp_inc(GD.fpus);
    GD.fpu = value;
    GD.fpu_dec = decimals;
    GD.fpu_dst = dst;
    if (G.can_fail && ND_BOOL("fpu_fail")) {
        G.fails = vp_inc(G.fails);
        return false;
    }
    GD.num_len = vp_number(dst, dst_len);
    return true;
}

int format_hex(const uint8_t *in, size_t in_len, char *out, size_t out_len) {
    if (out_len < 2 * in_len + 1) return -1;
#ifdef VP_CBMC
    CHECK(R_OK(in, in_len), "formatted id is readable");
#endif
    GD.hexs = vp_inc(GD.hexs);
    GD.hex_src = in;
    GD.hex_len = in_len;
    GD.hex_dst = out;
    if (G_k < in_len) GD.hex_at = in[G_k];
    for (size_t i = 0; i < in_len; i++) {
        out[2 * i] = "0123456789ABCDEF"[in[i] >> 4];
        out[2 * i + 1] = "0123456789ABCDEF"[in[i] & 15];
    }
    out[2 * in_len] = 0;
    return (int) (2 * in_len + 1);
}

int base58_encode(const uint8_t *in, size_t in_len, char *out, size_t out_len) {
#ifdef VP_CBMC
    CHECK(R_OK(in, in_len), "formatted address is readable");
#endif
    GD.b58s = vp_inc(GD.b58s);
    GD.b58_len = in_len;
    GD.b58_dst = out;
    if (G_k < in_len) GD.b58_at = in[G_k];
    if (G.can_fail && ND_BOOL("b58_fail")) {
        G.fails = vp_inc(G.fails);
        return -1;
    }
    int n = in_len == 38 ? 51 : 60;
    if (out_len < (size_t) n) return -1;
    for (int i = 0; i < n; i++) out[i] = '9'; /* no terminator: like the SDK */
    return n;
}

bool bip32_path_format(const uint32_t *bip32_path, size_t bip32_path_len, char *out, size_t out_len) {
    if (bip32_path_len == 0 || bip32_path_len > MAX_BIP32_PATH || out_len == 0) return false;
    GD.paths = vp_inc(GD.paths);
    GD.path_len = (uint8_t) bip32_path_len;
    for (size_t i = 0; i < 10; i++)
        if (i < bip32_path_len) GD.path[i] = bip32_path[i];
    GD.path_dst = out;
    if (G.can_fail && ND_BOOL("path_fail")) {
        G.fails = vp_inc(G.fails);
        return false;
    }
    out[0] = 'm';
    return true;
}
