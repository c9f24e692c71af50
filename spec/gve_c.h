/* Contracts: src/common/gve.c, src/common/gve.h, src/common/zigzag.h */
#pragma once
#include "../sdk/vp.h"
#include "vlq.h"
#include "common/gve.h"

static inline bool rwb_inv(const rw_buffer_t *b) {
    return b->read.offset <= b->read.size && b->read.size <= b->size && b->size <= 4096;
}
static inline bool rdb_inv(const buffer_t *b) {
    return b->offset <= b->size && b->size <= 4096;
}
static inline bool post_gve_put_u64(const rw_buffer_t *b, uint64_t v, gve_result_e r, size_t w0) {
    size_t n = vlq_len(v);
    if (n > b->size - w0) return r == GVE_ERR_DATA_SIZE && b->read.size == w0;
    if (r != GVE_OK || b->read.size != w0 + n) return false;
    for (size_t i = 0; i < 10; i++)
        if (i < n && b->read.ptr[w0 + i] != vlq_byte(v, i)) return false;
    return true;
}
gve_result_e gve_put_u64(rw_buffer_t *buffer, uint64_t val)
REQ(RW_OK(buffer, sizeof(*buffer)) && rwb_inv(buffer) && RW_OK(buffer->read.ptr, buffer->size))
ENS(post_gve_put_u64(buffer, val, RET, OLD(buffer->read.size)))
ASG(VLQ_LEN(val) <= buffer->size - buffer->read.size: buffer->read.size, UPTO((uint8_t *) buffer->read.ptr + buffer->read.size, VLQ_LEN(val)))
;

/* spec-level decoder: bytes consumed, or 0 when the input ends first, or 11 when 10 groups all continue */
typedef struct { unsigned n; uint64_t v; } vlq_dec_t;
static inline vlq_dec_t vlq_decode(const uint8_t *p, size_t avail) {
    vlq_dec_t d = {0, 0};
    bool stop = false;
    for (unsigned i = 0; i < 10; i++) {
        if (!stop && i >= avail) stop = true;
        if (!stop) {
            d.v |= (uint64_t) (p[i] & 0x7f) << (7 * i);
            if (p[i] < 0x80) {
                d.n = i + 1;
                stop = true;
            }
        }
    }
    if (!stop) d.n = 11;
    return d;
}
static inline bool post_gve_get_u64(const buffer_t *b, const uint64_t *val, gve_result_e r, size_t o0) {
    vlq_dec_t d = vlq_decode(b->ptr + o0, b->size - o0);
    if (d.n == 0) return r == GVE_ERR_DATA_SIZE && b->offset <= b->size;
    if (d.n == 11) return r != GVE_OK && b->offset <= b->size;
    return r == GVE_OK && *val == d.v && b->offset == o0 + d.n;
}
gve_result_e gve_get_u64(buffer_t *buffer, uint64_t *val)
REQ(RW_OK(buffer, sizeof(*buffer)) && rdb_inv(buffer) && R_OK(buffer->ptr, buffer->size) && RW_OK(val, 8))
ENS(post_gve_get_u64(buffer, val, RET, OLD(buffer->offset)))
ASG(*val, buffer->offset)
;
/* narrower readers: the same stream, with the value in range */
static inline bool post_gve_get_u(const buffer_t *b, uint64_t got, gve_result_e r, size_t o0, uint64_t max) {
    vlq_dec_t d = vlq_decode(b->ptr + o0, b->size - o0);
    if (d.n == 0 || d.n == 11) return r != GVE_OK;
    if (d.v > max) return r != GVE_OK;
    return r == GVE_OK && got == d.v && b->offset == o0 + d.n;
}
gve_result_e gve_get_u32(buffer_t *buffer, uint32_t *val)
REQ(RW_OK(buffer, sizeof(*buffer)) && rdb_inv(buffer) && R_OK(buffer->ptr, buffer->size) && RW_OK(val, 4))
ENS(post_gve_get_u(buffer, *val, RET, OLD(buffer->offset), 0xFFFFFFFFu))
ASG(*val, buffer->offset)
;
gve_result_e gve_get_u16(buffer_t *buffer, uint16_t *val)
REQ(RW_OK(buffer, sizeof(*buffer)) && rdb_inv(buffer) && R_OK(buffer->ptr, buffer->size) && RW_OK(val, 2))
ENS(post_gve_get_u(buffer, *val, RET, OLD(buffer->offset), 0xFFFFu))
ASG(*val, buffer->offset)
;
/* signed: zigzag of the mathematical value; code of a 32-bit value may come sign-extended */
static inline int64_t zz_dec(uint64_t u) {
    return (u & 1) ? (int64_t) ~(u >> 1) : (int64_t) (u >> 1);
}
static inline uint64_t zz_enc(int64_t v) {
    return v < 0 ? ((uint64_t) ~v << 1) | 1 : (uint64_t) v << 1;
}
static inline bool zz32_code_ok(uint64_t u) {
    return u <= 0xFFFFFFFFull || u >= 0xFFFFFFFF80000000ull;
}
static inline bool post_gve_get_i64(const buffer_t *b, int64_t got, gve_result_e r, size_t o0) {
    vlq_dec_t d = vlq_decode(b->ptr + o0, b->size - o0);
    if (d.n == 0 || d.n == 11) return r != GVE_OK;
    return r == GVE_OK && got == zz_dec(d.v) && b->offset == o0 + d.n;
}
static inline bool post_gve_get_i32(const buffer_t *b, int32_t got, gve_result_e r, size_t o0) {
    vlq_dec_t d = vlq_decode(b->ptr + o0, b->size - o0);
    if (d.n == 0 || d.n == 11 || !zz32_code_ok(d.v)) return r != GVE_OK;
    return r == GVE_OK && got == (int32_t) zz_dec((uint32_t) d.v) && b->offset == o0 + d.n;
}
static inline bool post_gve_get_i16(const buffer_t *b, int16_t got, gve_result_e r, size_t o0) {
    vlq_dec_t d = vlq_decode(b->ptr + o0, b->size - o0);
    if (d.n == 0 || d.n == 11 || !zz32_code_ok(d.v)) return r != GVE_OK;
    int32_t v = (int32_t) zz_dec((uint32_t) d.v);
    if (v > 32767 || v < -32768) return r != GVE_OK;
    return r == GVE_OK && got == v && b->offset == o0 + d.n;
}
gve_result_e gve_get_i64(buffer_t *buffer, int64_t *val)
REQ(RW_OK(buffer, sizeof(*buffer)) && rdb_inv(buffer) && R_OK(buffer->ptr, buffer->size) && RW_OK(val, 8))
ENS(post_gve_get_i64(buffer, *val, RET, OLD(buffer->offset)))
ASG(*val, buffer->offset)
;
gve_result_e gve_get_i32(buffer_t *buffer, int32_t *val)
REQ(RW_OK(buffer, sizeof(*buffer)) && rdb_inv(buffer) && R_OK(buffer->ptr, buffer->size) && RW_OK(val, 4))
ENS(post_gve_get_i32(buffer, *val, RET, OLD(buffer->offset)))
ASG(*val, buffer->offset)
;
gve_result_e gve_get_i16(buffer_t *buffer, int16_t *val)
REQ(RW_OK(buffer, sizeof(*buffer)) && rdb_inv(buffer) && R_OK(buffer->ptr, buffer->size) && RW_OK(val, 2))
ENS(post_gve_get_i16(buffer, *val, RET, OLD(buffer->offset)))
ASG(*val, buffer->offset)
;
