/* Ghost state of the SDK stand-ins: what the application asked the SDK to do. */
#pragma once
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include "vp.h"
#include "cx.h"

/* Watched position of every recorded byte stream.  Never assigned by any code under proof. */
extern size_t G_k;

typedef struct {
    bool can_fail;      /* SDK calls may fail (unconstrained choice at each call) */
    uint8_t fails;      /* number of SDK calls that failed, saturating */
    /* last finalised hash: stream it covered and the digest it returned */
    uint8_t finals;     /* number of finalisations, saturating */
    size_t fin_len;
    uint8_t fin_at;
    uint8_t digest[32];
    const cx_blake2b_t *fin_hash;
    /* one-shot blake2b-256: input length/byte at G_k, digest */
    uint8_t oneshots;
    size_t one_len;
    uint8_t one_at;
    uint8_t one_digest[32];
    /* HMAC */
    uint8_t hmacs;
    const uint8_t *hmac_key;
    size_t hmac_key_len;
    size_t hmac_len;
    uint8_t hmac_at;
    uint8_t hmac_mac[32];
    /* RNG */
    uint8_t rngs;
    const uint8_t *rng_ptr;
    size_t rng_len;
    uint8_t rng_last[32];
    uint8_t rng_avoid;  /* one-byte draws: the second in a row is neither 0 nor this (see DESIGN.md) */
    /* APDU replies */
    uint8_t sends;      /* replies sent, saturating */
    uint16_t sw;        /* status word of the last reply */
    size_t send_len;    /* data length of the last reply */
    uint8_t send_at;    /* data byte at G_k of the last reply */
    int send_ret;
    /* UX */
    uint8_t flows;      /* ux_flow_init calls, saturating */
    uint8_t nexts;
    uint8_t relayouts;
    const void *flow_steps;
} vp_ghost_t;
extern vp_ghost_t G;

/* key-material ghost: where secrets currently live, followed by one watched byte of each (any byte) */
typedef struct {
    uint8_t wi;
    const uint8_t *raw;   bool raw_live;    /* raw BIP32 seed material (64 bytes) */
    const void *key;      bool key_live;    /* expanded private key structure */
    const uint8_t *prod;  bool prod_live;   /* challenge*secret product */
    const uint8_t *chain; bool chain_live;  /* chain code written by derivation */
    uint8_t derives;
    uint8_t path_len;
    uint32_t path[10];
    uint8_t d[32];        /* private scalar handed out */
    uint8_t chain_code[32];
    uint8_t W[65];        /* public key handed out */
    uint8_t pairs;
} vp_keys_t;
extern vp_keys_t GK;

typedef struct {
    uint8_t muls, adds, smuls;
    uint8_t mul_a[32], mul_b[32], mul_m[32], mul_r[32];
    uint8_t add_a[32], add_b[32], add_m[32], add_r[32];
    /* last two scalar multiplications */
    uint8_t sm_k[2][32];
    uint8_t sm_out[2][65];
    bool sm_base[2];      /* input was the secp256k1 generator */
} vp_math_t;
extern vp_math_t GM;

/* display ghost: last formatted values */
typedef struct {
    uint8_t u64s; uint64_t u64; const char *u64_dst;
    uint8_t fpus; uint64_t fpu; uint8_t fpu_dec; const char *fpu_dst;
    uint8_t hexs; const uint8_t *hex_src; size_t hex_len; const char *hex_dst;
    uint8_t hex_at; /* byte at G_k of the formatted id */
    uint8_t b58s; size_t b58_len; uint8_t b58_at; const char *b58_dst;
    uint8_t paths; uint8_t path_len; uint32_t path[10]; const char *path_dst;
    uint8_t num_len; /* characters of the last number */
} vp_disp_t;
extern vp_disp_t GD;

#define GHOST_ASG WHOLE(&G)
static inline uint8_t vp_inc(uint8_t x) { return x == 255 ? 255 : (uint8_t) (x + 1); }
/* reset all ghost state; called by every harness */
void vp_ghost_init(void);
