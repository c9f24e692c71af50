/* Ledger SDK cryptography API, as far as the application uses it.  The bodies are in sdk.c: they are
 * ASSUMED contracts on a dependency, executable so that they serve both the proof and the replay.
 *
 * A hash context carries a ghost view of the byte stream it has absorbed: its length, and the byte at
 * the one watched position G_k.  G_k is unconstrained, so a statement about the watched byte is a
 * statement about every byte of the stream. */
#pragma once
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>

typedef uint32_t cx_err_t;
#define CX_OK             0
#define CX_INTERNAL_ERROR 0xFFFFFF85

typedef enum cx_md_e { CX_NONE_MD = 0, CX_BLAKE2B = 9 } cx_md_t;
typedef enum { CX_CURVE_NONE, CX_CURVE_SECP256K1 = 0x21 } cx_curve_t;
#define CX_CURVE_256K1 CX_CURVE_SECP256K1

struct cx_hash_header_s {
    cx_md_t md_type;
};
typedef struct cx_hash_header_s cx_hash_t;

struct cx_blake2b_s {
    struct cx_hash_header_s info;
    bool active;      /* ghost: initialised, and not finalised */
    size_t len;       /* ghost: bytes absorbed */
    uint8_t at;       /* ghost: byte at stream position G_k (meaningful if G_k < len) */
    uint8_t inits;    /* ghost: number of (re)initialisations of this object, saturating */
};
typedef struct cx_blake2b_s cx_blake2b_t;

#define CX_BLAKE2B_256_SIZE 32
#define CX_SHA256_SIZE      32
#define CX_LAST      (1 << 0)
#define CX_NO_REINIT (1 << 15)

typedef struct {
    cx_curve_t curve;
    size_t d_len;
    uint8_t d[32];
} cx_ecfp_256_private_key_t;
typedef struct {
    cx_curve_t curve;
    size_t W_len;
    uint8_t W[65];
} cx_ecfp_256_public_key_t;

cx_err_t cx_blake2b_init_no_throw(cx_blake2b_t *hash, size_t out_len);
cx_err_t cx_hash_no_throw(cx_hash_t *hash, uint32_t mode, const uint8_t *in, size_t len, uint8_t *out,
                          size_t out_len);
cx_err_t cx_blake2b_256_hash(const uint8_t *data, size_t len, uint8_t out[static CX_BLAKE2B_256_SIZE]);
size_t cx_hmac_sha256(const uint8_t *key, size_t key_len, const uint8_t *in, size_t len, uint8_t *mac,
                      size_t mac_len);
void cx_rng_no_throw(uint8_t *buffer, size_t len);
static inline uint8_t *cx_rng(uint8_t *buffer, size_t len) {
    cx_rng_no_throw(buffer, len);
    return buffer;
}
static inline uint8_t cx_rng_u8(void) {
    uint8_t b;
    cx_rng_no_throw(&b, 1);
    return b;
}
bool cx_math_is_zero(const uint8_t *a, size_t len);
cx_err_t cx_math_cmp_no_throw(const uint8_t *a, const uint8_t *b, size_t len, int *diff);
cx_err_t cx_math_multm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len);
cx_err_t cx_math_addm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len);
cx_err_t cx_ecfp_scalar_mult_no_throw(cx_curve_t curve, uint8_t *P, const uint8_t *k, size_t k_len);
cx_err_t cx_ecfp_init_private_key_no_throw(cx_curve_t curve, const uint8_t *raw, size_t len,
                                           cx_ecfp_256_private_key_t *key);
cx_err_t cx_ecfp_generate_pair_no_throw(cx_curve_t curve, cx_ecfp_256_public_key_t *pub,
                                        cx_ecfp_256_private_key_t *priv, bool keepprivate);
