/* Units: safeint.h, bip32_ext.[ch], buffer_ext.[ch], rwbuffer.[ch], zigzag.h */
#include "vp_ghost.h"
#include "bip32_c.h"
#include "common/safeint.h"
#include "common/rwbuffer.h"

/* ---- checked arithmetic: exact, or refused with the result untouched ---- */
void h_add_u64(void) {
    uint64_t l = ND_U64("l"), r = ND_U64("r"), o = ND_U64("o"), o0 = o;
    bool ok = checked_add_u64(l, r, &o);
    CHECK(ok == (l + r >= l), "addition succeeds exactly when the sum fits");
    CHECK(o == (ok ? l + r : o0), "sum is exact, or untouched");
    o = l;
    ok = checked_add_u64(o, r, &o);
    CHECK(ok ? (o == l + r && l + r >= l) : o == l, "accumulating in place");
    REACH(ok, "sum"); REACH(!ok, "refused");
}
void h_sub_u64(void) {
    uint64_t l = ND_U64("l"), r = ND_U64("r"), o = ND_U64("o"), o0 = o;
    bool ok = checked_sub_u64(l, r, &o);
    CHECK(ok == (r <= l), "subtraction succeeds exactly when the difference is not negative");
    CHECK(o == (ok ? l - r : o0), "difference is exact, or untouched");
    o = l;
    ok = checked_sub_u64(o, r, &o);
    CHECK(ok ? (o == l - r && r <= l) : o == l, "accumulating in place");
    REACH(ok, "difference"); REACH(!ok, "refused");
}
static bool fits(__int128 x) { return x >= INT64_MIN && x <= INT64_MAX; }
void h_add_i64(void) {
    int64_t l = ND_I64("l"), o = ND_I64("o"), o0 = o;
    uint64_t r = ND_U64("r");
    __int128 x = (__int128) l + (__int128) r;
    bool ok = checked_add_i64(l, r, &o);
    CHECK(ok == fits(x), "signed addition succeeds exactly when the sum fits");
    CHECK(ok ? (__int128) o == x : o == o0, "sum is exact, or untouched");
    REACH(ok && l < 0 && o > 0, "sum"); REACH(!ok, "refused");
}
void h_sub_i64(void) {
    int64_t l = ND_I64("l"), o = ND_I64("o"), o0 = o;
    uint64_t r = ND_U64("r");
    __int128 x = (__int128) l - (__int128) r;
    bool ok = checked_sub_i64(l, r, &o);
    CHECK(ok == fits(x), "signed subtraction succeeds exactly when the difference fits");
    CHECK(ok ? (__int128) o == x : o == o0, "difference is exact, or untouched");
    REACH(ok && l > 0 && o < 0, "difference"); REACH(!ok, "refused");
}

/* ---- BIP32 ---- */
static uint32_t A[MAX_BIP32_PATH], B[MAX_BIP32_PATH];
static void mk_path(uint32_t *p) {
    for (int i = 0; i < MAX_BIP32_PATH; i++) p[i] = ND_U32("comp");
}
void h_path_validate(void) {
    mk_path(A);
    uint8_t n = ND_U8("len");
    uint32_t t = ND_U32("purpose"), c = ND_U32("coin"), v = ND_U32("vtype");
    VP_ASSUME(n <= MAX_BIP32_PATH && v <= BIP32_PATH_VALIDATE_ADDRESS_GE5);
    bool r = bip32_path_validate(A, n, t, c, (bip32_path_validation_type_e) v);
    POST(r == spec_path_ok(A, n, t, c, v));
    REACH(r && v == BIP32_PATH_VALIDATE_ADDRESS_GE5 && n == 10, "long address path");
    REACH(r && v == BIP32_PATH_VALIDATE_ACCOUNT_GE3, "account path");
    REACH(!r, "refused");
}
void h_path_compare(void) {
    mk_path(A);
    mk_path(B);
    uint8_t n = ND_U8("len1"), m = ND_U8("len2");
    VP_ASSUME(n <= MAX_BIP32_PATH && m <= MAX_BIP32_PATH);
    CHECK(bip32_path_is_equal(A, n, B, m) == spec_path_eq(A, n, B, m), "paths are equal exactly when every component is");
    CHECK(bip32_path_same_account(A, n, B, m) == spec_same_account(A, n, B, m),
          "same account exactly when purpose, coin and account agree");
    REACH(bip32_path_is_equal(A, n, B, m) && n == 10, "equal");
    REACH(bip32_path_same_account(A, n, B, m) && !bip32_path_is_equal(A, n, B, m), "same account only");
}

/* ---- byte buffers ---- */
#ifndef CAP
#define CAP 64
#endif
static uint8_t D[CAP], S[CAP], D0[CAP];
static buffer_t in;
static rw_buffer_t b, b0;
static void mk_in(void) {
    ND_BYTES("D", D);
    in.ptr = D;
    in.size = ND_SIZE("size");
    in.offset = ND_SIZE("offset");
    VP_ASSUME(in.size <= CAP && in.offset <= in.size);
}
static bool same_bytes(const uint8_t *x, const uint8_t *y, size_t n) {
    for (size_t i = 0; i < CAP; i++)
        if (i < n && x[i] != y[i]) return false;
    return true;
}
void h_buffer_bytes(void) {
    mk_in();
    ND_BYTES("S", S);
    size_t n = ND_SIZE("count"), o0 = in.offset, avail = in.size - in.offset;
    CHECK(buffer_data_len(&in) == avail && buffer_read_ptr(&in) == D + o0, "the unread part is what is reported");
    uint8_t first = S[0];
    bool r = buffer_copy_bytes(&in, S, n);
    CHECK(r == (n <= avail), "a copy succeeds exactly when enough bytes are left");
    CHECK(in.offset == o0 && in.size <= CAP, "a copy consumes nothing");
    if (r) CHECK(same_bytes(S, D + o0, n), "the copied bytes are the next unread ones");
    else CHECK(S[0] == first, "a refused copy writes nothing");
    ND_BYTES("T", S);
    first = S[0];
    bool q = buffer_read_bytes(&in, S, n);
    CHECK(q == (n <= avail), "a read succeeds exactly when enough bytes are left");
    CHECK(in.offset == (q ? o0 + n : o0), "a read consumes exactly what it returns");
    if (q) CHECK(same_bytes(S, D + o0, n), "the read bytes are the next unread ones");
    else CHECK(S[0] == first, "a refused read writes nothing");
    REACH(q && n == CAP, "full read"); REACH(!q, "refused");
}
static void mk_rw(void) {
    ND_BYTES("D", D);
    for (int i = 0; i < CAP; i++) D0[i] = D[i];
    b.read.ptr = D;
    b.size = ND_SIZE("cap");
    b.read.size = ND_SIZE("wpos");
    b.read.offset = ND_SIZE("rpos");
    VP_ASSUME(b.size <= CAP && b.read.size <= b.size && b.read.offset <= b.read.size);
    b0 = b;
}
/* the buffer after appending n bytes of w (or after refusing to) */
static void appended(bool r, const uint8_t *w, size_t n) {
    size_t k = ND_SIZE("k");
    VP_ASSUME(k < CAP);
    CHECK(r == (n <= b0.size - b0.read.size), "a write succeeds exactly when it fits");
    CHECK(b.size == b0.size && b.read.offset == b0.read.offset && b.read.ptr == D, "a write moves only the end of data");
    CHECK(b.read.size == (r ? b0.read.size + n : b0.read.size), "the data grows by what was written");
    bool inside = r && k >= b0.read.size && k - b0.read.size < n;
    CHECK(D[k] == (inside ? w[k - b0.read.size] : D0[k]), "exactly the appended bytes change");
}
void h_rw_write_ints(void) {
    mk_rw();
    uint64_t v = ND_U64("v");
    bool be = ND_BOOL("be");
    uint8_t which = ND_U8("width"), w[8];
    unsigned n = which == 0 ? 1 : which == 1 ? 2 : which == 2 ? 4 : 8;
    for (unsigned i = 0; i < 8; i++) w[i] = (uint8_t) (i < n ? v >> (8 * (be ? n - 1 - i : i)) : 0);
    bool r = n == 1 ? rw_buffer_write_u8(&b, (uint8_t) v)
           : n == 2 ? rw_buffer_write_u16(&b, (uint16_t) v, be ? BE : LE)
           : n == 4 ? rw_buffer_write_u32(&b, (uint32_t) v, be ? BE : LE)
                    : rw_buffer_write_u64(&b, v, be ? BE : LE);
    appended(r, w, n);
    REACH(r && n == 8, "written"); REACH(!r, "refused");
}
void h_rw_write_bytes(void) {
    mk_rw();
    ND_BYTES("S", S);
    size_t n = ND_SIZE("count");
    /* the source is a separate object of at least n bytes whenever the write is possible */
    bool r = rw_buffer_write_bytes(&b, S, n);
    appended(r, S, n);
    REACH(r && n > 40, "written"); REACH(!r, "refused");
}
void h_rw_seek(void) {
    mk_rw();
    size_t off = ND_SIZE("off");
    CHECK(rw_buffer_data_len(&b) == b.read.size - b.read.offset, "unread length");
    CHECK(rw_buffer_empty_space_len(&b) == b.size - b.read.size, "free length");
    CHECK(rw_buffer_can_write(&b, off) == (off <= b.size - b.read.size), "free room test");
    CHECK(rw_buffer_can_read(&b, off) == (off <= b.read.size - b.read.offset), "unread test");
    CHECK(rw_buffer_write_ptr(&b) == D + b.read.size && rw_buffer_read_ptr(&b) == D + b.read.offset, "cursors");
    uint8_t which = ND_U8("which");
    bool r, want;
    size_t pos;
    if (which == 0) {
        r = rw_buffer_seek_write_set(&b, off);
        want = off <= b0.size;
        pos = off;
    } else if (which == 1) {
        r = rw_buffer_seek_write_cur(&b, off);
        want = off <= b0.size - b0.read.size;
        pos = b0.read.size + off;
    } else {
        r = rw_buffer_seek_write_end(&b, off);
        want = off <= b0.size;
        pos = b0.size - off;
    }
    CHECK(r == want && b.read.size == (want ? pos : b0.read.size) && b.size == b0.size, "the write position stays inside the buffer");
    REACH(r, "moved"); REACH(!r, "refused");
}
void h_rw_shift(void) {
    mk_rw();
    size_t n = b.read.size - b.read.offset, k = ND_SIZE("k");
    VP_ASSUME(k < CAP);
    rw_buffer_shift_data(&b);
    CHECK(b.read.offset == 0 && b.read.size == n && b.size == b0.size, "shifting keeps the unread length and frees the rest");
    if (k < n) CHECK(D[k] == D0[b0.read.offset + k], "shifting keeps the unread bytes");
    rw_buffer_empty(&b);
    CHECK(b.read.offset == 0 && b.read.size == 0 && b.size == b0.size, "emptying drops all data");
    REACH(b0.read.offset > 0 && n > 20, "shifted");
}

/* the inline readers of the read/write buffer: the same rules, and nothing but the read position moves */
void h_rw_reads(void) {
    mk_rw();
    size_t o = b.read.offset, left = b.read.size - o, off = ND_SIZE("off"), want = 0, pos = 0;
    uint8_t which = ND_U8("which");
    bool be = ND_BOOL("be"), r = false, fits = false;
    VP_ASSUME(which < 10);
    ND_BYTES("S", S);
    uint8_t first = S[0];
    uint64_t v = 0, exact = 0;
    uint32_t path[2] = {0, 0};
    static const uint8_t W[4] = {1, 2, 4, 8};
    if (which < 4) {
        uint16_t h = 0;
        uint32_t w = 0;
        uint8_t c = 0;
        want = W[which];
        if (which == 0) { r = rw_buffer_read_u8(&b, &c); v = c; }
        if (which == 1) { r = rw_buffer_read_u16(&b, &h, be ? BE : LE); v = h; }
        if (which == 2) { r = rw_buffer_read_u32(&b, &w, be ? BE : LE); v = w; }
        if (which == 3) r = rw_buffer_read_u64(&b, &v, be ? BE : LE);
        fits = want <= left;
        pos = o + want;
        if (fits)
            for (unsigned i = 0; i < 8; i++)
                if (i < want) exact |= (uint64_t) D0[o + i] << (8 * (be ? want - 1 - i : i));
        if (r && fits) CHECK(v == exact, "the integer is that of the next bytes");
    } else if (which == 4) {
        r = rw_buffer_read_bytes(&b, S, off);
        fits = off <= left;
        pos = o + off;
        if (r && fits) CHECK(same_bytes(S, D0 + o, off), "the bytes read are the next unread ones");
        if (!fits) CHECK(S[0] == first, "a refused read writes nothing");
    } else if (which == 5) {
        r = rw_buffer_copy_bytes(&b, S, off);
        fits = off <= left;
        pos = o;
        if (r && fits) CHECK(same_bytes(S, D0 + o, off), "the bytes copied are the next unread ones");
        if (!fits) CHECK(S[0] == first, "a refused copy writes nothing");
    } else if (which == 6) {
        r = rw_buffer_read_bip32_path(&b, path, 2);
        fits = left >= 8;
        pos = o + 8;
        if (r && fits)
            for (unsigned i = 0; i < 2; i++)
                CHECK(path[i] == ((uint32_t) D0[o + 4 * i] << 24 | (uint32_t) D0[o + 4 * i + 1] << 16 | (uint32_t) D0[o + 4 * i + 2] << 8 | D0[o + 4 * i + 3]), "path levels are read big endian");
    } else if (which == 7) {
        r = rw_buffer_seek_read_set(&b, off);
        fits = off <= b0.read.size;
        pos = off;
    } else if (which == 8) {
        r = rw_buffer_seek_read_cur(&b, off);
        fits = off <= left;
        pos = o + off;
    } else {
        r = rw_buffer_seek_read_end(&b, off);
        fits = off <= b0.read.size;
        pos = b0.read.size - off;
    }
    CHECK(r == fits, "reading succeeds exactly when the bytes are there");
    CHECK(b.read.offset == (fits ? pos : o) && b.read.size == b0.read.size && b.size == b0.size && b.read.ptr == D, "reading moves the read position by exactly what was read");
    CHECK(rw_buffer_read_position(&b) == b.read.offset && rw_buffer_write_position(&b) == b.read.size, "positions are reported");
    size_t k = ND_SIZE("k");
    VP_ASSUME(k < CAP);
    CHECK(D[k] == D0[k], "reading changes no content");
    REACH(r && which == 3, "integer"); REACH(r && which == 4 && off > 20, "bytes"); REACH(r && which == 9, "moved"); REACH(!r && which == 8, "refused");
}
