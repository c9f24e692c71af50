/* Units: src/ergo/tx_ser_input.[ch], src/helpers/input_frame.c */
#include <string.h>
#include "vp_ghost.h"
#include "stream.h"
#include "ergo/tx_ser_input.h"
#include "helpers/input_frame.h"

#ifndef VP_K
#define VP_K 1
#endif
static ergo_tx_serializer_input_context_t c, c0;
static cx_blake2b_t hash, h0;
static uint8_t fails0;
static uint8_t D[255], BOX[32], k32;
static buffer_t in;
static token_table_t T;
static int listener;
/* ghost: reports to the listener */
static struct {
    uint8_t tokens, box_at, id_at;
    uint64_t value;
    bool failed, wrong_ctx;
    ergo_tx_serializer_input_result_e failed_with;
} GI;
static uint8_t GI_j;

static ergo_tx_serializer_input_result_e cb(const uint8_t box[static ERGO_ID_LEN], const uint8_t id[static ERGO_ID_LEN], uint64_t v, void *x) {
    if (GI.tokens == GI_j) {
        GI.box_at = box[k32];
        GI.id_at = id[k32];
        GI.value = v;
    }
    GI.tokens = vp_inc(GI.tokens);
    if (x != &listener) GI.wrong_ctx = true;
    if (ND_BOOL("cb_fail")) {
        uint8_t e = ND_U8("cb_err");
        VP_ASSUME(e >= 1 && e <= ERGO_TX_SERIALIZER_INPUT_RES_ERR_TOO_MANY_TOKENS);
        GI.failed = true;
        GI.failed_with = (ergo_tx_serializer_input_result_e) e;
        return GI.failed_with;
    }
    return ERGO_TX_SERIALIZER_INPUT_RES_OK;
}
static bool res_ok(ergo_tx_serializer_input_result_e r) {
    return r == ERGO_TX_SERIALIZER_INPUT_RES_OK || r == ERGO_TX_SERIALIZER_INPUT_RES_MORE_DATA;
}
static bool is_err(ergo_tx_serializer_input_result_e r) {
    return r >= ERGO_TX_SERIALIZER_INPUT_RES_ERR_BAD_CONTEXT_EXTENSION_SIZE && r <= ERGO_TX_SERIALIZER_INPUT_RES_ERR_TOO_MANY_TOKENS &&
           c.state == ERGO_TX_SERIALIZER_INPUT_STATE_ERROR;
}
static bool same_hash(void) { return hash.active == h0.active && hash.len == h0.len && hash.at == h0.at && hash.inits == h0.inits; }
static bool frame_ok(void) { /* nothing but the progress changed */
    return c.box_id[k32] == c0.box_id[k32] && c.frames_count == c0.frames_count && c.on_token_cb == c0.on_token_cb &&
           c.callback_context == c0.callback_context && c.tokens_table == c0.tokens_table && c.hash == c0.hash;
}
static bool refused(ergo_tx_serializer_input_result_e r) { return is_err(r) && same_hash() && GI.tokens == 0; }
#define FAILED (G.fails != fails0 || GI.failed)

static void mk(void) {
    vp_ghost_init();
    hash.active = true;
    hash.at = ND_U8("at");
    k32 = ND_U8("k32");
    VP_ASSUME(k32 < 32);
    GI_j = ND_U8("GI_j");
    h0 = hash;
    fails0 = G.fails;
    uint8_t st = ND_U8("state");
    VP_ASSUME(st <= ERGO_TX_SERIALIZER_INPUT_STATE_ERROR);
    c.state = (ergo_tx_serializer_input_state_e) st;
    for (unsigned i = 0; i < 32; i++) {
        c.box_id[i] = ND_U8("box_id");
        BOX[i] = ND_U8("BOX");
    }
    c.frames_count = ND_U8("frames_count");
    c.frames_processed = ND_U8("frames_processed");
    c.context_extension_data_size = ND_U32("ext_size");
    VP_ASSUME(c.context_extension_data_size <= MAX_TX_DATA_PART_LEN);
    if (ND_BOOL("has_cb")) c.on_token_cb = cb;
    c.callback_context = &listener;
    c.tokens_table = &T;
    c.hash = &hash;
    c0 = c;
    for (unsigned i = 0; i < 255; i++) D[i] = ND_U8("D");
    in.ptr = D;
}
void h_input_init(void) {
    mk();
    uint8_t frames = ND_U8("frames");
    uint32_t ext = ND_U32("ext");
    ergo_tx_serializer_input_result_e r = ergo_tx_serializer_input_init(&c, BOX, frames, ext, &T, &hash);
    CHECK(res_ok(r) == (ext != 1 && ext <= MAX_TX_DATA_PART_LEN), "an input starts exactly when its extension size is allowed");
    CHECK(same_hash(), "nothing is hashed yet");
    if (res_ok(r))
        CHECK(r == ERGO_TX_SERIALIZER_INPUT_RES_OK && c.state == ERGO_TX_SERIALIZER_INPUT_STATE_FRAMES_STARTED && c.box_id[k32] == BOX[k32] &&
                  c.frames_count == frames && c.frames_processed == 0 && c.context_extension_data_size == ext && c.on_token_cb == NULL &&
                  c.tokens_table == &T && c.hash == &hash,
              "everything announced is kept, and no listener is left from before");
    else
        CHECK(is_err(r), "a refused input stays unusable");
    REACH(res_ok(r), "ok"); REACH(!res_ok(r), "refused");
}
enum { REFUSED = 1, CUT, SERIALIZER_FAILED, COMPLETE, MORE };
static int tokens(size_t size) {
    in.offset = 0;
    in.size = size;
    uint8_t index = ND_U8("index");
    bool same = true;
    for (unsigned i = 0; i < 32; i++) same = same && BOX[i] == c.box_id[i];
    ergo_tx_serializer_input_result_e r = ergo_tx_serializer_input_add_tokens(&c, BOX, index, &in);
    if (c0.state != ERGO_TX_SERIALIZER_INPUT_STATE_FRAMES_STARTED || !same || index >= c0.frames_count || index != c0.frames_processed) {
        CHECK(refused(r), "a frame of another box, out of order, repeated or too many is refused without effect");
        return REFUSED;
    }
    if (size != 40 * VP_K) {
        CHECK(is_err(r) && same_hash(), "a frame that ends inside a token is refused and nothing is hashed");
        return CUT;
    }
    if (FAILED) {
        CHECK(is_err(r) && (!GI.failed || r == GI.failed_with), "a failure is reported and sticks");
        return SERIALIZER_FAILED;
    }
    CHECK(frame_ok() && c.context_extension_data_size == c0.context_extension_data_size && c.frames_processed == c0.frames_processed + 1, "the frame counts once");
    CHECK(in.offset == in.size && GI.tokens == (c0.on_token_cb ? VP_K : 0) && !GI.wrong_ctx, "each token of the frame is reported once");
    if (GI_j < GI.tokens) {
        CHECK(GI.box_at == c0.box_id[k32], "each report names the box");
#if VP_K > 0
        CHECK(GI.id_at == D[40 * GI_j + k32], "each report names the token of the frame");
        CHECK(GI.value == rd_u64(D + 40 * GI_j + 32), "each report has the amount of the frame");
#endif
    }
    if (c.frames_processed == c0.frames_count) {
        st_t s;
        st_begin(&s, &h0);
        st_bytes(&s, c0.box_id, 32);
        st_u8(&s, 0);
        if (c0.context_extension_data_size == 0) {
            st_u8(&s, 0);
            CHECK(c.state == ERGO_TX_SERIALIZER_INPUT_STATE_FINISHED, "without an extension the input is complete");
        } else {
            CHECK(c.state == ERGO_TX_SERIALIZER_INPUT_STATE_EXTENSION_STARTED, "the extension comes next");
        }
        CHECK(r == ERGO_TX_SERIALIZER_INPUT_RES_OK && st_is(&s, &hash), "with the last frame exactly the box id and the empty proof (and empty extension) are hashed");
        return COMPLETE;
    } else {
        CHECK(r == ERGO_TX_SERIALIZER_INPUT_RES_MORE_DATA && c.state == c0.state && same_hash(), "nothing is hashed before the last frame");
        return MORE;
    }
}
void h_input_tokens(void) {
    mk();
    int went = tokens(40 * VP_K);
    REACH(went == REFUSED, "refused"); REACH(went == SERIALIZER_FAILED, "failed"); REACH(went == COMPLETE, "complete"); REACH(went == MORE, "more");
}
void h_input_tokens_cut(void) {
    mk();
    size_t rem = ND_SIZE("rem");
    VP_ASSUME(rem > 0 && rem < 40 && 40 * VP_K + rem <= 255);
    for (unsigned x = 1; x < 40; x++)
        if (rem == x) {
            int went = tokens(40 * VP_K + x);
            if (x == 1) {
                REACH(went == CUT, "cut"); REACH(went == REFUSED, "refused");
            }
            CASE_END;
        }
}
void h_input_extension(void) {
    mk();
    in.size = ND_SIZE("size");
    in.offset = ND_SIZE("offset");
    VP_ASSUME(in.size <= 255 && in.offset <= in.size);
    size_t n = in.size - in.offset, off0 = in.offset;
    ergo_tx_serializer_input_result_e r = ergo_tx_serializer_input_add_context_extension(&c, &in);
    if (c0.state != ERGO_TX_SERIALIZER_INPUT_STATE_EXTENSION_STARTED || n > c0.context_extension_data_size) {
        CHECK(refused(r), "extension data outside its place, or longer than announced, is refused without effect");
    } else if (FAILED) {
        CHECK(is_err(r), "a failure is reported and sticks");
    } else {
        st_t s;
        st_begin(&s, &h0);
        st_bytes(&s, D + off0, n);
        CHECK(st_is(&s, &hash) && c.context_extension_data_size == c0.context_extension_data_size - n && frame_ok() && GI.tokens == 0 &&
                  c.frames_processed == c0.frames_processed, "exactly the chunk is hashed");
        CHECK(c.context_extension_data_size == 0
                  ? r == ERGO_TX_SERIALIZER_INPUT_RES_OK && c.state == ERGO_TX_SERIALIZER_INPUT_STATE_FINISHED
                  : r == ERGO_TX_SERIALIZER_INPUT_RES_MORE_DATA && c.state == c0.state,
              "complete with the last announced byte");
    }
    REACH(r == ERGO_TX_SERIALIZER_INPUT_RES_OK, "ok"); REACH(r == ERGO_TX_SERIALIZER_INPUT_RES_MORE_DATA, "more"); REACH(FAILED, "failed");
}
/* helpers/input_frame.c: 32 id, frames count, frame index, 8 value, token count n, 40*n, 16 MAC */
void h_frame(void) {
    mk();
    in.size = ND_SIZE("size");
    in.offset = ND_SIZE("offset");
    VP_ASSUME(in.size <= 255 && in.offset <= in.size);
    size_t n = in.size - in.offset, o = in.offset;
    buffer_t i0 = in;
    uint8_t l = input_frame_data_length(&in);
    const uint8_t *s = input_frame_signature_ptr(&in);
    CHECK(in.ptr == i0.ptr && in.size == i0.size && in.offset == i0.offset, "measuring a frame consumes nothing");
    if (n >= 43 + 16 && D[o + 42] <= 4 && n >= 43 + 40 * (size_t) D[o + 42] + 16) {
        CHECK(l == 43 + 40 * D[o + 42], "a frame's length follows from its token count");
        CHECK(s == D + o + l, "its authentication code lies right behind its content");
    } else {
        CHECK(l == 0 && s == NULL, "a frame whose tokens or code do not fit is refused");
    }
    REACH(l == 203, "full"); REACH(l == 0 && n > 200, "refused");
}
