/* Units: src/ergo/tx_ser_box.[ch] */
#include <string.h>
#include "vp_ghost.h"
#include "box_c.h"
#include "ergo/ergo_tree.h"

#ifndef VP_K
#define VP_K 1
#endif
#ifndef VP_IN_PLACE
#define VP_IN_PLACE 0
#endif
box_cb_ghost_t GB;
uint8_t GB_j, GB_b;
static ergo_tx_serializer_box_context_t c, c0;
static cx_blake2b_t hash, h0;
static uint8_t fails0;
static uint8_t D[255], PK[PUBLIC_KEY_LEN];
static buffer_t in;
/* a byte object: CBMC 6.11 mis-reads a two-dimensional member array at a symbolic row through a pointer */
static uint8_t T_mem[sizeof(token_table_t)];
#define T (*(token_table_t *) T_mem)
static ergo_tx_serializer_table_context_t tc;
static int listener;

static ergo_tx_serializer_box_result_e cb_result(void) {
    if (ND_BOOL("cb_fail")) {
        uint8_t e = ND_U8("cb_err");
        VP_ASSUME(e >= 1 && e <= ERGO_TX_SERIALIZER_BOX_RES_ERR_SMALL_CHUNK);
        GB.failed = true;
        GB.failed_with = (ergo_tx_serializer_box_result_e) e;
        return GB.failed_with;
    }
    return ND_BOOL("cb_more") ? ERGO_TX_SERIALIZER_BOX_RES_MORE_DATA : ERGO_TX_SERIALIZER_BOX_RES_OK;
}
static ergo_tx_serializer_box_result_e cb_type(ergo_tx_serializer_box_type_e t, uint64_t v, void *x) {
    GB.types = vp_inc(GB.types);
    GB.type = t;
    GB.type_value = v;
    if (x != &listener) GB.wrong_ctx = true;
    return cb_result();
}
static ergo_tx_serializer_box_result_e cb_token(ergo_tx_serializer_box_type_e t, const uint8_t id[static ERGO_ID_LEN], uint64_t v, void *x) {
    if (GB.tokens == GB_j) {
        GB.id_at = id[GB_b];
        GB.value = v;
        GB.tok_type = t;
    }
    GB.tokens = vp_inc(GB.tokens);
    if (x != &listener) GB.wrong_ctx = true;
    return cb_result();
}
static ergo_tx_serializer_box_result_e cb_fin(ergo_tx_serializer_box_type_e t, void *x) {
    GB.finishes = vp_inc(GB.finishes);
    GB.fin_type = t;
    if (x != &listener) GB.wrong_ctx = true;
    return cb_result();
}

static void mk_hash(void) {
    vp_ghost_init();
    hash.active = true;
    hash.at = ND_U8("at");
    GB_j = ND_U8("GB_j");
    GB_b = ND_U8("GB_b");
    VP_ASSUME(GB_b < 32);
    h0 = hash;
    fails0 = G.fails;
}
static void mk(void) {
    mk_hash();
    c.callbacks.context = &listener;
    if (ND_BOOL("has_type")) c.callbacks.on_type = cb_type;
    if (ND_BOOL("has_token")) c.callbacks.on_token = cb_token;
    if (ND_BOOL("has_finished")) c.callbacks.on_finished = cb_fin;
    c.value = ND_U64("value");
    c.ergo_tree_size = ND_U32("tree_size");
    c.creation_height = ND_U32("height");
    c.registers_size = ND_U32("registers_size");
    c.tokens_count = ND_U8("tokens_count");
    uint8_t st = ND_U8("state"), ty = ND_U8("type");
    VP_ASSUME(st <= ERGO_TX_SERIALIZER_BOX_STATE_ERROR && ty <= ERGO_TX_SERIALIZER_BOX_TYPE_TREE);
    c.state = (ergo_tx_serializer_box_state_e) st;
    c.type = (ergo_tx_serializer_box_type_e) ty;
    c.hash = &hash;
    VP_ASSUME(c.ergo_tree_size <= MAX_TX_DATA_PART_LEN && c.registers_size <= MAX_TX_DATA_PART_LEN && c.tokens_count <= TOKEN_MAX_COUNT);
    c0 = c;
}
static void mk_chunk(void) {
    for (unsigned i = 0; i < 255; i++) D[i] = ND_U8("D");
    in.ptr = D;
    in.size = ND_SIZE("size");
    in.offset = ND_SIZE("offset");
    VP_ASSUME(in.size <= 255 && in.offset <= in.size);
}
#define FAILED (G.fails != fails0 || GB.failed)
/* bad state: error, nothing hashed, nobody told */
static bool refused(ergo_tx_serializer_box_result_e r) {
    return box_err(&c, r) && hash_same(&hash, &h0) && GB.types == 0 && GB.tokens == 0 && GB.finishes == 0;
}
/* what must follow once the tokens are complete */
static bool after_tokens(ergo_tx_serializer_box_result_e r, st_t s) {
    if (r != ERGO_TX_SERIALIZER_BOX_RES_OK) return false;
    if (c0.registers_size != 0)
        return st_is(&s, &hash) && GB.finishes == 0 && c.state == ERGO_TX_SERIALIZER_BOX_STATE_TOKENS_ADDED;
    st_u8(&s, 0);
    return st_is(&s, &hash) && c.state == ERGO_TX_SERIALIZER_BOX_STATE_FINISHED && GB.finishes == (c0.callbacks.on_finished ? 1 : 0) &&
           (GB.finishes == 0 || GB.fin_type == c.type);
}
/* what must follow the last byte of the script */
static bool after_tree(ergo_tx_serializer_box_result_e r, st_t s, ergo_tx_serializer_box_type_e type) {
    st_vlq(&s, c0.creation_height);
    st_u8(&s, c0.tokens_count);
    if (c.type != type || c.tokens_count != c0.tokens_count || c.registers_size != c0.registers_size || !box_frame(&c, &c0)) return false;
    if (GB.types != (c0.callbacks.on_type ? 1 : 0) || GB.tokens != 0) return false;
    if (GB.types && (GB.type != type || GB.type_value != c0.value)) return false;
    if (c0.tokens_count == 0) return after_tokens(r, s);
    return r == ERGO_TX_SERIALIZER_BOX_RES_OK && st_is(&s, &hash) && GB.finishes == 0 && c.state == ERGO_TX_SERIALIZER_BOX_STATE_TREE_ADDED;
}
#define REFUSED_UNLESS(s) (c0.state != (s) ? refused(r) : true)

void h_box_init(void) {
    mk(); /* whatever was there before */
    uint64_t value = ND_U64("value");
    uint32_t tree = ND_U32("tree_size"), height = ND_U32("height"), regs = ND_U32("registers_size");
    uint8_t tokens = ND_U8("tokens_count");
    ergo_tx_serializer_box_result_e r = ergo_tx_serializer_box_init(&c, value, tree, height, tokens, regs, &hash);
    bool sizes = tokens <= TOKEN_MAX_COUNT && tree <= MAX_TX_DATA_PART_LEN && regs <= MAX_TX_DATA_PART_LEN;
    CHECK(box_res_ok(r) == (sizes && G.fails == fails0), "an output starts exactly when its announced sizes are allowed");
    if (!box_res_ok(r)) {
        CHECK(box_err(&c, r), "a refused output stays unusable");
        if (!sizes) CHECK(hash_same(&hash, &h0), "a refused output is not hashed");
    } else {
        st_t s;
        st_begin(&s, &h0);
        st_vlq(&s, value);
        CHECK(r == ERGO_TX_SERIALIZER_BOX_RES_OK && st_is(&s, &hash), "its value is hashed");
        CHECK(c.value == value && c.ergo_tree_size == tree && c.creation_height == height && c.tokens_count == tokens &&
                  c.registers_size == regs && c.hash == &hash && c.state == ERGO_TX_SERIALIZER_BOX_STATE_INITIALIZED,
              "everything announced is kept");
        CHECK(c.callbacks.on_type == NULL && c.callbacks.on_token == NULL && c.callbacks.on_finished == NULL, "no listener is left from before");
    }
    REACH(box_res_ok(r) && tokens == 20, "ok"); REACH(!sizes, "refused"); REACH(sizes && !box_res_ok(r), "failed");
}
void h_box_add_tree(void) {
    mk();
    mk_chunk();
    size_t n = in.size - in.offset, off0 = in.offset;
    ergo_tx_serializer_box_result_e r = ergo_tx_serializer_box_add_tree(&c, &in);
    st_t s;
    st_begin(&s, &h0);
    st_bytes(&s, D + off0, n);
    if (c0.state != ERGO_TX_SERIALIZER_BOX_STATE_INITIALIZED) {
        CHECK(refused(r), "script data outside its place is refused without effect");
    } else if (n > c0.ergo_tree_size || (n < c0.ergo_tree_size && n < MAX_DATA_CHUNK_LEN)) {
        CHECK(refused(r), "a chunk longer than announced, or a short chunk before the last, is refused without effect");
    } else if (FAILED) {
        CHECK(box_err(&c, r) && (!GB.failed || r == GB.failed_with), "a failure is reported and sticks");
    } else {
        CHECK(in.offset == in.size && c.ergo_tree_size == c0.ergo_tree_size - n, "the whole chunk is consumed");
        if (n < c0.ergo_tree_size)
            CHECK(r == ERGO_TX_SERIALIZER_BOX_RES_MORE_DATA && c.state == c0.state && st_is(&s, &hash) && GB.types == 0 && GB.finishes == 0 &&
                      c.tokens_count == c0.tokens_count && c.registers_size == c0.registers_size && box_frame(&c, &c0),
                  "exactly the chunk is hashed and more is expected");
        else
            CHECK(after_tree(r, s, ERGO_TX_SERIALIZER_BOX_TYPE_TREE), "the last chunk is hashed, then height and token count, and the script is announced once");
    }
    CHECK(!GB.wrong_ctx, "the listener gets its own context");
    REACH(r == ERGO_TX_SERIALIZER_BOX_RES_MORE_DATA, "more"); REACH(c.state == ERGO_TX_SERIALIZER_BOX_STATE_FINISHED, "finished");
    REACH(r == ERGO_TX_SERIALIZER_BOX_RES_OK && c.state == ERGO_TX_SERIALIZER_BOX_STATE_TREE_ADDED, "tree"); REACH(FAILED, "failed");
}
void h_box_fee_tree(void) {
    mk();
    bool mainnet = ND_BOOL("mainnet");
    const uint8_t *t;
    size_t tl;
    ergo_tree_miners_fee_tree(mainnet, &t, &tl);
    ergo_tx_serializer_box_result_e r = ergo_tx_serializer_box_add_miners_fee_tree(&c, mainnet);
    st_t s;
    st_begin(&s, &h0);
    st_bytes(&s, t, tl);
    if (c0.state != ERGO_TX_SERIALIZER_BOX_STATE_INITIALIZED) CHECK(refused(r), "a fee script outside its place is refused without effect");
    else if (FAILED) CHECK(box_err(&c, r) && (!GB.failed || r == GB.failed_with), "a failure is reported and sticks");
    else CHECK(after_tree(r, s, ERGO_TX_SERIALIZER_BOX_TYPE_FEE), "the fee script is hashed, then height and token count, and announced as fee once");
    CHECK(!GB.wrong_ctx, "the listener gets its own context");
    REACH(r == ERGO_TX_SERIALIZER_BOX_RES_OK, "ok"); REACH(FAILED, "failed");
}
void h_box_change_tree(void) {
    mk();
    for (unsigned i = 0; i < PUBLIC_KEY_LEN; i++) PK[i] = ND_U8("PK");
    ergo_tx_serializer_box_result_e r = ergo_tx_serializer_box_add_change_tree(&c, PK);
    st_t s;
    st_begin(&s, &h0);
    st_u8(&s, 0x00);
    st_u8(&s, 0x08);
    st_u8(&s, 0xcd);
    st_u8(&s, (PK[64] & 1) ? 3 : 2);
    st_bytes(&s, PK + 1, 32);
    if (c0.state != ERGO_TX_SERIALIZER_BOX_STATE_INITIALIZED) CHECK(refused(r), "a change script outside its place is refused without effect");
    else if (FAILED) CHECK(box_err(&c, r) && (!GB.failed || r == GB.failed_with), "a failure is reported and sticks");
    else CHECK(after_tree(r, s, ERGO_TX_SERIALIZER_BOX_TYPE_CHANGE), "the key's script is hashed, then height and token count, and announced as change once");
    CHECK(!GB.wrong_ctx, "the listener gets its own context");
    REACH(r == ERGO_TX_SERIALIZER_BOX_RES_OK, "ok"); REACH(FAILED, "failed");
}
void h_box_registers(void) {
    mk();
    mk_chunk();
    size_t n = in.size - in.offset, off0 = in.offset;
    ergo_tx_serializer_box_result_e r = ergo_tx_serializer_box_add_registers(&c, &in);
    st_t s;
    st_begin(&s, &h0);
    st_bytes(&s, D + off0, n);
    if (c0.state != ERGO_TX_SERIALIZER_BOX_STATE_TOKENS_ADDED || n > c0.registers_size) {
        CHECK(refused(r), "register data outside its place, or longer than announced, is refused without effect");
    } else if (FAILED) {
        CHECK(box_err(&c, r) && (!GB.failed || r == GB.failed_with), "a failure is reported and sticks");
    } else {
        CHECK(in.offset == in.size && c.registers_size == c0.registers_size - n && st_is(&s, &hash) && box_frame(&c, &c0) && c.type == c0.type &&
                  GB.types == 0 && GB.tokens == 0, "exactly the chunk is hashed");
        if (n < c0.registers_size)
            CHECK(r == ERGO_TX_SERIALIZER_BOX_RES_MORE_DATA && c.state == c0.state && GB.finishes == 0, "more is expected");
        else
            CHECK(r == ERGO_TX_SERIALIZER_BOX_RES_OK && c.state == ERGO_TX_SERIALIZER_BOX_STATE_FINISHED &&
                      GB.finishes == (c0.callbacks.on_finished ? 1 : 0) && (!GB.finishes || GB.fin_type == c0.type), "complete with the last byte");
    }
    CHECK(!GB.wrong_ctx, "the listener gets its own context");
    REACH(r == ERGO_TX_SERIALIZER_BOX_RES_MORE_DATA, "more"); REACH(r == ERGO_TX_SERIALIZER_BOX_RES_OK, "ok"); REACH(FAILED, "failed");
}
void h_box_id(void) {
    mk();
    uint8_t tx[32], id[32];
    for (unsigned i = 0; i < 32; i++) id[i] = tx[i] = ND_U8("tx");
    uint16_t index = ND_U16("index");
    uint8_t f0 = G.finals;
    /* the id may replace the transaction id, as attestation does */
    ergo_tx_serializer_box_result_e r = ergo_tx_serializer_box_id_hash(&c, VP_IN_PLACE ? id : tx, index, id);
    st_t s;
    st_begin(&s, &h0);
    st_bytes(&s, tx, 32);
    st_vlq(&s, index);
    if (c0.state != ERGO_TX_SERIALIZER_BOX_STATE_FINISHED) {
        CHECK(refused(r) && G.finals == f0, "no id is computed for an incomplete output");
    } else if (FAILED) {
        CHECK(box_err(&c, r), "a failure is reported and sticks");
    } else {
        CHECK(r == ERGO_TX_SERIALIZER_BOX_RES_OK && c.state == ERGO_TX_SERIALIZER_BOX_STATE_HASH_FINALIZED, "done");
        CHECK(G.finals == f0 + 1 && G.fin_hash == &hash && st_eq(&s, G.fin_len, G.fin_at), "the id covers the output, the transaction id and the index");
        uint8_t k = ND_U8("k");
        VP_ASSUME(k < 32);
        CHECK(id[k] == G.digest[k], "the id is the digest");
    }
    REACH(r == ERGO_TX_SERIALIZER_BOX_RES_OK, "ok"); REACH(FAILED, "failed");
}
void h_box_id_init(void) {
    mk_hash();
    hash.active = ND_BOOL("active");
    hash.len = ND_SIZE("len");
    bool ok = ergo_tx_serializer_box_id_hash_init(&hash);
    CHECK(ok == (G.fails == fails0), "a failure is reported");
    if (ok) CHECK(hash.active && hash.len == 0, "a fresh hash is started");
    REACH(ok, "ok"); REACH(!ok, "failed");
}
/* tokens: VP_K whole tokens, and with VP_REM a cut-off one behind them; VP_TABLE: indexes, else ids */
#ifdef VP_TABLE
#define STEP 12
#else
#define STEP 40
#endif
void h_box_tokens(void) {
    mk();
    for (unsigned i = 0; i < 255; i++) D[i] = ND_U8("D");
    in.ptr = D;
    in.offset = 0;
    in.size = STEP * VP_K;
#ifdef VP_REM
    size_t rem = ND_SIZE("rem");
    VP_ASSUME(rem > 0 && rem < STEP && STEP * VP_K + rem <= 255);
#endif
    const ergo_tx_serializer_table_context_t *table = NULL;
#ifdef VP_TABLE
    tc.tokens_table = &T;
    tc.distinct_tokens_count = ND_U8("distinct");
    VP_ASSUME(tc.distinct_tokens_count <= TOKEN_MAX_COUNT);
    ND_BYTES("T", T_mem);
    table = &tc;
#endif
#ifdef VP_REM
    for (unsigned x = 1; x < STEP; x++)
        if (rem == x) {
            in.size = STEP * VP_K + x;
            ergo_tx_serializer_box_result_e r = ergo_tx_serializer_box_add_tokens(&c, &in, table);
            CHECK(box_err(&c, r), "a list that ends inside a token is refused");
            if (c0.state != ERGO_TX_SERIALIZER_BOX_STATE_TREE_ADDED) CHECK(refused(r), "tokens outside their place are refused without effect");
            if (x == 1) REACH(true, "cut");
            CASE_END;
        }
#else
    ergo_tx_serializer_box_result_e r = ergo_tx_serializer_box_add_tokens(&c, &in, table);
    if (c0.state != ERGO_TX_SERIALIZER_BOX_STATE_TREE_ADDED) {
        CHECK(refused(r), "tokens outside their place are refused without effect");
        REACH(true, "refused");
        CASE_END;
    }
    if (FAILED) {
        CHECK(box_err(&c, r) && (!GB.failed || r == GB.failed_with), "a failure is reported and sticks");
        REACH(true, "failed");
        CASE_END;
    }
    st_t s;
    st_begin(&s, &h0);
    bool valid = VP_K <= c0.tokens_count;
    uint8_t w_id = 0;
    uint64_t w_val = 0;
    for (unsigned i = 0; i < VP_K; i++) {
        const uint8_t *q = D + STEP * i;
#ifdef VP_TABLE
        uint32_t idx = rd_u32(q);
        if (idx >= tc.distinct_tokens_count) valid = false;
        st_vlq(&s, idx);
        if (i == GB_j && idx < tc.distinct_tokens_count) w_id = T_mem[offsetof(token_table_t, tokens) + 32 * idx + GB_b];
#else
        st_bytes(&s, q, 32);
        if (i == GB_j) w_id = q[GB_b];
#endif
        uint64_t val = rd_u64(q + STEP - 8);
        st_vlq(&s, val);
        if (i == GB_j) w_val = val;
    }
    if (!valid) {
        CHECK(box_err(&c, r), "too many tokens, or a token outside the table, is refused");
        REACH_IF(VP_K > 0, true, "invalid");
        CASE_END;
    }
    CHECK(in.offset == in.size && c.tokens_count == c0.tokens_count - VP_K && box_frame(&c, &c0) && c.type == c0.type && c.registers_size == c0.registers_size,
          "the list is consumed and counted");
    CHECK(GB.types == 0 && GB.tokens == (c0.callbacks.on_token ? VP_K : 0), "one report per token");
    if (GB_j < GB.tokens) {
        CHECK(GB.id_at == w_id, "each reported id is the hashed token's");
        CHECK(GB.value == w_val, "each reported amount is the hashed one");
        CHECK(GB.tok_type == c0.type, "each report carries the output's kind");
    }
    CHECK(!GB.wrong_ctx, "the listener gets its own context");
    if (c.tokens_count != 0)
        CHECK(r == ERGO_TX_SERIALIZER_BOX_RES_MORE_DATA && st_is(&s, &hash) && GB.finishes == 0 && c.state == ERGO_TX_SERIALIZER_BOX_STATE_TREE_ADDED,
              "exactly the tokens are hashed and more are expected");
    else
        CHECK(after_tokens(r, s), "exactly the tokens are hashed, and the output goes on to its registers");
    REACH_IF(VP_K <= TOKEN_MAX_COUNT, c.tokens_count == 0, "complete");
#endif
}
