/* Spec: what a recorded byte stream must contain.  A stream cursor walks the expected bytes in order
 * and remembers the one at the watched position G_k; st_ok() then compares length and watched byte
 * with a hash context (or any recorded stream).  G_k is unconstrained, so agreement at G_k is
 * agreement at every position. */
#pragma once
#include "../sdk/vp_ghost.h"
#include "vlq.h"

typedef struct {
    size_t len;
    uint8_t at;
} st_t;

static inline void st_begin(st_t *s, const cx_blake2b_t *h0) {
    s->len = h0->len;
    s->at = h0->at;
}
static inline void st_zero(st_t *s) {
    s->len = 0;
    s->at = 0;
}
static inline void st_bytes(st_t *s, const uint8_t *p, size_t n) {
    if (G_k >= s->len && G_k - s->len < n) s->at = p[G_k - s->len];
    s->len += n;
}
static inline void st_u8(st_t *s, uint8_t v) {
    if (G_k == s->len) s->at = v;
    s->len += 1;
}
static inline void st_vlq(st_t *s, uint64_t v) {
    unsigned n = vlq_len(v);
    if (G_k >= s->len && G_k - s->len < n) s->at = vlq_byte(v, (unsigned) (G_k - s->len));
    s->len += n;
}
static inline void st_be(st_t *s, uint64_t v, unsigned n) {
    if (G_k >= s->len && G_k - s->len < n) s->at = (uint8_t) (v >> (8 * (n - 1 - (G_k - s->len))));
    s->len += n;
}
static inline bool st_eq(const st_t *s, size_t len, uint8_t at) {
    return s->len == len && (G_k >= len || s->at == at);
}
static inline bool st_is(const st_t *s, const cx_blake2b_t *h) {
    return h->active && st_eq(s, h->len, h->at);
}
static inline uint32_t rd_u32(const uint8_t *p) {
    return ((uint32_t) p[0] << 24) | ((uint32_t) p[1] << 16) | ((uint32_t) p[2] << 8) | p[3];
}
static inline uint64_t rd_u64(const uint8_t *p) {
    return ((uint64_t) rd_u32(p) << 32) | rd_u32(p + 4);
}
