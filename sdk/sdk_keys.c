/* Key derivation, elliptic-curve and modular-arithmetic stand-ins (recording, unconstrained results). */
#include "vp_ghost.h"
#include "os.h"

static bool vp_kfail(void) {
    if (G.can_fail && ND_BOOL("key_fail")) {
        G.fails = vp_inc(G.fails);
        return true;
    }
    return false;
}

cx_err_t os_derive_bip32_no_throw(cx_curve_t curve, const uint32_t *path, size_t path_len,
                                  uint8_t raw_privkey[static 64], uint8_t *chain_code) {
    CHECK(curve == CX_CURVE_256K1, "keys are derived on secp256k1");
    CHECK(path_len <= 10, "derivation path has at most 10 components");
    if (vp_kfail()) return CX_INTERNAL_ERROR;
    GK.derives = vp_inc(GK.derives);
    GK.path_len = (uint8_t) path_len;
    for (size_t i = 0; i < 10; i++)
        if (i < path_len) GK.path[i] = path[i];
    for (int i = 0; i < 64; i++) {
        uint8_t b = ND_U8("raw");
        raw_privkey[i] = b;
        if (i < 32) GK.d[i] = b;
    }
    GK.raw = raw_privkey;
    GK.raw_live = true;
    if (chain_code != NULL) {
        for (int i = 0; i < 32; i++) {
            uint8_t b = ND_U8("chain");
            chain_code[i] = b;
            GK.chain_code[i] = b;
        }
        GK.chain = chain_code;
        GK.chain_live = true;
    }
    return CX_OK;
}

cx_err_t cx_ecfp_init_private_key_no_throw(cx_curve_t curve, const uint8_t *raw, size_t len,
                                           cx_ecfp_256_private_key_t *key) {
    CHECK(curve == CX_CURVE_256K1, "private key is on secp256k1");
    CHECK(len == 32, "private key scalar is 32 bytes");
    if (vp_kfail()) return CX_INTERNAL_ERROR;
    key->curve = curve;
    key->d_len = len;
    for (int i = 0; i < 32; i++) key->d[i] = raw[i];
    GK.key = key;
    GK.key_live = true;
    return CX_OK;
}

cx_err_t cx_ecfp_generate_pair_no_throw(cx_curve_t curve, cx_ecfp_256_public_key_t *pub,
                                        cx_ecfp_256_private_key_t *priv, bool keepprivate) {
    CHECK(curve == CX_CURVE_256K1, "key pair is on secp256k1");
    CHECK(keepprivate, "the derived private key is the one used");
    if (vp_kfail()) return CX_INTERNAL_ERROR;
    GK.pairs = vp_inc(GK.pairs);
    for (int i = 0; i < 32; i++) CHECK(priv->d[i] == GK.d[i], "public key comes from the derived private key");
    pub->curve = curve;
    pub->W_len = 65;
    for (int i = 0; i < 65; i++) {
        uint8_t b = ND_U8("pub");
        pub->W[i] = b;
        GK.W[i] = b;
    }
    return CX_OK;
}

bool cx_math_is_zero(const uint8_t *a, size_t len) {
    uint8_t r = 0;
    for (size_t i = 0; i < len; i++) r |= a[i];
    return r == 0;
}

cx_err_t cx_math_cmp_no_throw(const uint8_t *a, const uint8_t *b, size_t len, int *diff) {
    if (vp_kfail()) return CX_INTERNAL_ERROR;
    int d = 0;
    for (size_t i = 0; i < len; i++)
        if (d == 0 && a[i] != b[i]) d = a[i] > b[i] ? 1 : -1;
    *diff = d;
    return CX_OK;
}

cx_err_t cx_math_multm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len) {
    CHECK(len == 32, "modular product of 32-byte values");
    if (vp_kfail()) return CX_INTERNAL_ERROR;
    GM.muls = vp_inc(GM.muls);
    for (int i = 0; i < 32; i++) {
        GM.mul_a[i] = a[i];
        GM.mul_b[i] = b[i];
        GM.mul_m[i] = m[i];
    }
    for (int i = 0; i < 32; i++) GM.mul_r[i] = r[i] = ND_U8("mul");
    GK.prod = r;
    GK.prod_live = true;
    return CX_OK;
}

cx_err_t cx_math_addm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len) {
    CHECK(len == 32, "modular sum of 32-byte values");
    if (vp_kfail()) return CX_INTERNAL_ERROR;
    GM.adds = vp_inc(GM.adds);
    for (int i = 0; i < 32; i++) {
        GM.add_a[i] = a[i];
        GM.add_b[i] = b[i];
        GM.add_m[i] = m[i];
    }
    for (int i = 0; i < 32; i++) GM.add_r[i] = r[i] = ND_U8("add");
    return CX_OK;
}

static const uint8_t VP_G65[65] = {
    0x04, 0x79, 0xbe, 0x66, 0x7e, 0xf9, 0xdc, 0xbb, 0xac, 0x55, 0xa0, 0x62, 0x95, 0xce, 0x87, 0x0b, 0x07,
    0x02, 0x9b, 0xfc, 0xdb, 0x2d, 0xce, 0x28, 0xd9, 0x59, 0xf2, 0x81, 0x5b, 0x16, 0xf8, 0x17, 0x98,
    0x48, 0x3a, 0xda, 0x77, 0x26, 0xa3, 0xc4, 0x65, 0x5d, 0xa4, 0xfb, 0xfc, 0x0e, 0x11, 0x08, 0xa8,
    0xfd, 0x17, 0xb4, 0x48, 0xa6, 0x85, 0x54, 0x19, 0x9c, 0x47, 0xd0, 0x8f, 0xfb, 0x10, 0xd4, 0xb8};

cx_err_t cx_ecfp_scalar_mult_no_throw(cx_curve_t curve, uint8_t *P, const uint8_t *k, size_t k_len) {
    CHECK(curve == CX_CURVE_SECP256K1, "scalar multiplication is on secp256k1");
    CHECK(k_len == 32, "scalar is 32 bytes");
    if (vp_kfail()) return CX_INTERNAL_ERROR;
    bool base = true;
    for (int i = 0; i < 65; i++) base = base && P[i] == VP_G65[i];
    GM.sm_base[0] = GM.sm_base[1];
    GM.sm_base[1] = base;
    for (int i = 0; i < 32; i++) {
        GM.sm_k[0][i] = GM.sm_k[1][i];
        GM.sm_k[1][i] = k[i];
    }
    GM.smuls = vp_inc(GM.smuls);
    for (int i = 0; i < 65; i++) {
        GM.sm_out[0][i] = GM.sm_out[1][i];
        P[i] = GM.sm_out[1][i] = i == 0 ? 0x04 : ND_U8("point");
    }
    return CX_OK;
}
