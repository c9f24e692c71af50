/* Units: src/common/gve.c and the inline writers of gve.h */
#include "vp_ghost.h"
#include "gve_c.h"

static uint8_t D[255];
static buffer_t in;
static rw_buffer_t out;
static uint8_t O[24];

static void mk_in(void) {
    ND_BYTES("D", D);
    in.ptr = D;
    in.size = ND_SIZE("size");
    in.offset = ND_SIZE("offset");
    VP_ASSUME(in.size <= sizeof(D) && in.offset <= in.size);
}
static void mk_out(void) {
    out.read.ptr = O;
    out.size = ND_SIZE("cap");
    out.read.size = ND_SIZE("wpos");
    out.read.offset = ND_SIZE("rpos");
    VP_ASSUME(out.size <= sizeof(O) && out.read.size <= out.size && out.read.offset <= out.read.size);
}
void h_put_u64(void) {
    mk_out();
    uint64_t v = ND_U64("v");
    size_t w0 = out.read.size;
    gve_result_e r = gve_put_u64(&out, v);
    POST(post_gve_put_u64(&out, v, r, w0));
    REACH(r == GVE_OK && out.read.size == w0 + 10, "longest encoding");
    REACH(r != GVE_OK, "no room");
}
#define GETTER(name, T, cond, reach)                  \
    void h_##name(void) {                            \
        mk_in();                                     \
        T val = 0;                                   \
        size_t o0 = in.offset;                       \
        gve_result_e r = name(&in, &val);            \
        POST(cond);                                  \
        REACH(r == GVE_OK && (reach), "accepted");   \
        REACH(r == GVE_ERR_INT_TO_BIG, "too big");   \
        REACH(r == GVE_ERR_DATA_SIZE, "truncated");  \
    }
GETTER(gve_get_u64, uint64_t, post_gve_get_u64(&in, &val, r, o0), in.offset == o0 + 10)
GETTER(gve_get_u32, uint32_t, post_gve_get_u(&in, val, r, o0, 0xFFFFFFFFu), val > 0xFFFF)
GETTER(gve_get_u16, uint16_t, post_gve_get_u(&in, val, r, o0, 0xFFFFu), val > 0xFF)
GETTER(gve_get_i32, int32_t, post_gve_get_i32(&in, val, r, o0), val < -2000000000)
GETTER(gve_get_i16, int16_t, post_gve_get_i16(&in, val, r, o0), val < -30000)
void h_gve_get_i64(void) {
    mk_in();
    int64_t val = 0;
    size_t o0 = in.offset;
    gve_result_e r = gve_get_i64(&in, &val);
    POST(post_gve_get_i64(&in, val, r, o0));
    REACH(r == GVE_OK && val == INT64_MIN, "accepted");
    REACH(r != GVE_OK, "refused");
}

/* round trip of every writer with its reader, and the exact bytes of the typed writers */
#define ROUNDTRIP(name, T, nd, put, get, code)                          \
    void h_rt_##name(void) {                                            \
        static uint8_t B[12];                                           \
        rw_buffer_t b;                                                  \
        rw_buffer_init(&b, B, sizeof(B), 0);                            \
        T v = (T) nd("v"), w = 0;                                       \
        CHECK(put(&b, v) == GVE_OK, "encoding fits");                   \
        uint64_t c = (code);                                            \
        CHECK(b.read.size == vlq_len(c), "encoded length");             \
        for (unsigned i = 0; i < 10; i++)                               \
            CHECK(i >= vlq_len(c) || B[i] == vlq_byte(c, i), "encoded byte"); \
        CHECK(get(&b.read, &w) == GVE_OK, "own encoding is accepted");  \
        CHECK(w == v, "round trip gives the value back");               \
        CHECK(b.read.offset == b.read.size, "round trip consumes the encoding"); \
        REACH(true, "round trip");                                      \
    }
ROUNDTRIP(u16, uint16_t, ND_U16, gve_put_u16, gve_get_u16, v)
ROUNDTRIP(u32, uint32_t, ND_U32, gve_put_u32, gve_get_u32, v)
ROUNDTRIP(u64, uint64_t, ND_U64, gve_put_u64, gve_get_u64, v)
ROUNDTRIP(i16, int16_t, ND_U16, gve_put_i16, gve_get_i16, zz_enc(v))
ROUNDTRIP(i32, int32_t, ND_U32, gve_put_i32, gve_get_i32, (uint64_t) (int64_t) (int32_t) (uint32_t) zz_enc(v))
ROUNDTRIP(i64, int64_t, ND_U64, gve_put_i64, gve_get_i64, zz_enc(v))
void h_rt_u8(void) {
    static uint8_t B[2];
    rw_buffer_t b;
    rw_buffer_init(&b, B, sizeof(B), 0);
    uint8_t v = ND_U8("v"), w = 0;
    CHECK(gve_put_u8(&b, v) == GVE_OK && b.read.size == 1 && B[0] == v, "one raw byte");
    CHECK(gve_get_u8(&b.read, &w) == GVE_OK && w == v && b.read.offset == 1, "round trip gives the value back");
    CHECK(gve_get_u8(&b.read, &w) == GVE_ERR_DATA_SIZE, "nothing past the end");
    int8_t s = (int8_t) ND_U8("s"), t = 0;
    CHECK(gve_put_i8(&b, s) == GVE_OK && B[1] == (uint8_t) s, "one raw byte");
    CHECK(gve_get_i8(&b.read, &t) == GVE_OK && t == s, "round trip gives the value back");
    CHECK(gve_put_u8(&b, v) == GVE_ERR_DATA_SIZE && b.read.size == 2, "no room is refused");
    REACH(true, "round trip");
}
