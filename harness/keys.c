/* Units: src/helpers/crypto.c, src/ergo/schnorr.c */
#include <string.h>
#include "vp_ghost.h"
#include "stream.h"
#include "ergo_c.h"
#include "helpers/crypto.h"
#include "ergo/schnorr.h"

static const uint8_t N[32] = {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe,
                              0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41};
/* zero is not in range, and neither is anything from the group order on */
static bool in_range(const uint8_t *k) {
    bool zero = true;
    int d = 0;
    for (int i = 0; i < 32; i++) {
        if (k[i] != 0) zero = false;
        if (d == 0 && k[i] != N[i]) d = k[i] > N[i] ? 1 : -1;
    }
    return !zero && d < 0;
}
static bool wiped(void) { return !GK.raw_live && !GK.key_live && !GK.prod_live; }

static uint32_t path[10];
static uint8_t len;
static void mk_path(void) {
    vp_ghost_init();
    for (int i = 0; i < 10; i++) path[i] = ND_U32("path");
    len = ND_U8("len");
    VP_ASSUME(len <= 10);
}
static bool path_used(void) {
    if (GK.derives != 1 || GK.path_len != len) return false;
    for (int i = 0; i < 10; i++)
        if (i < len && GK.path[i] != path[i]) return false;
    return true;
}
void h_private_key(void) {
    mk_path();
    static uint8_t out[PRIVATE_KEY_LEN];
    uint16_t r = crypto_generate_private_key(path, len, out);
    CHECK((r == 0) == (G.fails == 0), "a key is reported exactly if every call succeeded");
    if (r == 0) CHECK(path_used() && eq_bytes(out, GK.d, 32), "the key is the one derived for the whole path");
    CHECK(wiped() && !GK.chain_live, "seed material, expanded key and chain code are overwritten");
    REACH(r == 0 && len == 10, "derived"); REACH(r != 0 && GK.derives == 0, "derivation fails"); REACH(r != 0 && GK.derives == 1, "key fails");
}
void h_public_key(void) {
    mk_path();
    static uint8_t W[PUBLIC_KEY_LEN], cc[CHAIN_CODE_LEN];
    bool want = ND_BOOL("want");
    uint16_t r = crypto_generate_public_key(path, len, W, want ? cc : NULL);
    CHECK((r == 0) == (G.fails == 0), "a key is reported exactly if every call succeeded");
    if (r == 0) {
        CHECK(path_used() && GK.pairs == 1 && eq_bytes(W, GK.W, 65), "the key is the one derived for the whole path");
        if (want) CHECK(eq_bytes(cc, GK.chain_code, 32), "the chain code is the one of the path");
    }
    CHECK(wiped() && (want || !GK.chain_live), "seed material, private key and unwanted chain code are overwritten");
    REACH(r == 0 && want, "with chain code"); REACH(r == 0 && !want, "without"); REACH(r != 0 && GK.derives == 1, "late failure"); REACH(r != 0 && GK.derives == 0, "early failure");
}

static cx_blake2b_t hash, h0;
static uint8_t key[32], secret[32], sig[ERGO_SIGNATURE_LEN];
static bool commitment(int pk, int w) {
    if (!eq_bytes(GM.sm_k[pk], secret, 32) || !eq_bytes(GM.sm_k[w], key, 32) || !GM.sm_base[0] || !GM.sm_base[1]) return false;
    static const uint8_t PRE_[7] = {0x01, 0x00, 0x27, 0x10, 0x01, 0x08, 0xcd}, SUF[4] = {0x73, 0x00, 0x00, 0x21};
    uint8_t P[33], W[33];
    spec_compress(P, GM.sm_out[pk]);
    spec_compress(W, GM.sm_out[w]);
    st_t s;
    st_zero(&s);
    st_bytes(&s, PRE_, 7);
    st_bytes(&s, P, 33);
    st_bytes(&s, SUF, 4);
    st_bytes(&s, W, 33);
    return hash.active && st_is(&s, &hash);
}
void h_sign_init(void) {
    vp_ghost_init();
    ND_BYTES("secret", secret);
    bool r = ergo_secp256k1_schnorr_p2pk_sign_init(&hash, key, secret);
    if (r) {
        CHECK(in_range(secret), "a secret out of range is never used");
        CHECK(G.rngs > 0 && G.rng_ptr == key && G.rng_len == 32 && eq_bytes(key, G.rng_last, 32), "the nonce is freshly drawn");
        CHECK(in_range(key), "a nonce out of range is never used");
        CHECK(commitment(0, 1) || commitment(1, 0), "the challenge starts with public key and commitment of exactly this nonce");
    }
    REACH(r, "started"); REACH(!r && in_range(secret), "gave up"); REACH(r && G.rngs > 1, "drawn again"); REACH(r && G.fails > 0, "failed once");
}
static bool commutes(const uint8_t *a, const uint8_t *b, const uint8_t *x, const uint8_t *y) {
    return (eq_bytes(a, x, 32) && eq_bytes(b, y, 32)) || (eq_bytes(a, y, 32) && eq_bytes(b, x, 32));
}
void h_sign_finish(void) {
    vp_ghost_init();
    ND_BYTES("secret", secret);
    ND_BYTES("key", key);
    hash.active = true;
    hash.len = ND_SIZE("hashed");
    hash.at = ND_U8("at");
    VP_ASSUME(hash.len <= 0xFFFFF);
    h0 = hash;
    bool r = ergo_secp256k1_schnorr_p2pk_sign_finish(sig, &hash, secret, key);
    uint8_t c[32];
    bool zero = true;
    for (int i = 0; i < 32; i++) {
        c[i] = i < 8 ? 0 : G.digest[i - 8];
        if (c[i] != 0) zero = false;
    }
    if (r) {
        CHECK(G.fails == 0, "a failed step is never a signature");
        CHECK(G.finals == 1 && G.fin_hash == &hash && G.fin_len == h0.len && (G_k >= h0.len || G.fin_at == h0.at), "the challenge hashes exactly commitment and message");
        CHECK(eq_bytes(sig, G.digest, 24) && !zero, "the first 24 bytes are the challenge");
        CHECK(GM.muls == 1 && commutes(GM.mul_a, GM.mul_b, c, secret) && eq_bytes(GM.mul_m, N, 32), "challenge times secret modulo the order");
        CHECK(GM.adds == 1 && commutes(GM.add_a, GM.add_b, GM.mul_r, key) && eq_bytes(GM.add_m, N, 32), "plus nonce modulo the order");
        CHECK(eq_bytes(sig + 24, GM.add_r, 32), "the last 32 bytes are the response");
    }
    CHECK(wiped(), "the intermediate product is overwritten");
    REACH(r, "signed"); REACH(!r && G.fails == 0, "zero challenge"); REACH(!r && GM.muls == 1, "sum fails"); REACH(!r && G.finals == 0, "hash fails");
}
