/* Units: src/ergo/tx_ser_table.[ch] */
#include "vp_ghost.h"
#include "table_c.h"

#ifndef VP_N
#define VP_N 0
#endif
static uint8_t T_mem[sizeof(token_table_t)];
#define T (*(token_table_t *) T_mem)
static ergo_tx_serializer_table_context_t c;
static cx_blake2b_t hash;
static uint8_t D[255], ID[32];
static buffer_t in;

static void mk(void) {
    vp_ghost_init();
    ND_BYTES("T", T_mem);
    T.count = ND_U8("count");
    VP_ASSUME(T.count <= TOKEN_MAX_COUNT);
}
static void mk_ctx(void) {
    c.tokens_table = &T;
    c.distinct_tokens_count = ND_U8("distinct");
    VP_ASSUME(c.distinct_tokens_count <= TOKEN_MAX_COUNT);
}
void h_table_find(void) {
    mk();
    ND_BYTES("ID", ID);
    uint8_t i = token_table_find_token_index(&T, ID), want = INDEX_NOT_EXIST;
    for (unsigned k = 0; k < TOKEN_MAX_COUNT; k++) {
        bool same = true;
        for (unsigned j = 0; j < 32; j++) same = same && T.tokens[k][j] == ID[j];
        if (k < T.count && same && want == INDEX_NOT_EXIST) want = (uint8_t) k;
    }
    CHECK(i == want, "a token is found exactly when one of the entries equals it in all 32 bytes");
    REACH(i == 19, "last"); REACH(i == INDEX_NOT_EXIST && T.count == 20, "absent");
}
/* watched table cell, unconstrained */
static uint8_t GT_r, GT_c, cell0;
static uint8_t cell(void) { return T_mem[offsetof(token_table_t, tokens) + 32 * GT_r + GT_c]; }
static void watch(void) {
    GT_r = ND_U8("row");
    GT_c = ND_U8("col");
    VP_ASSUME(GT_r < TOKEN_MAX_COUNT && GT_c < 32);
    cell0 = cell();
}
void h_table_add_token(void) {
    mk();
    ND_BYTES("ID", ID);
    watch();
    uint8_t n = T.count;
    uint8_t i = token_table_add_token(&T, ID);
    CHECK(i == (n < TOKEN_MAX_COUNT ? n : INDEX_NOT_EXIST), "a token is appended, or refused when the table is full");
    CHECK(T.count == (n < TOKEN_MAX_COUNT ? n + 1 : n), "the count grows with it");
    CHECK(cell() == (GT_r == n ? ID[GT_c] : cell0), "exactly the appended entry changes");
    REACH(n == 20, "full"); REACH(n == 3, "added");
}
void h_table_init(void) {
    vp_ghost_init();
    ND_BYTES("T", T_mem);
    T.count = ND_U8("count");
    uint8_t n = ND_U8("n"), n0 = T.count;
    ergo_tx_serializer_table_result_e r = ergo_tx_serializer_table_init(&c, n, &T);
    CHECK(table_res_ok(r) == (n0 == 0 && n <= TOKEN_MAX_COUNT), "a table starts empty and holds at most 20 ids");
    if (table_res_ok(r)) {
        bool zero = true;
        for (unsigned i = 0; i < TOKEN_MAX_COUNT; i++)
            for (unsigned k = 0; k < 32; k++) zero = zero && T.tokens[i][k] == 0;
        CHECK(r == ERGO_TX_SERIALIZER_TABLE_RES_OK && c.distinct_tokens_count == n && c.tokens_table == &T && T.count == 0 && zero,
              "the announced count is kept and no stale id remains");
    }
    REACH(table_res_ok(r) && n == 20, "ready"); REACH(!table_res_ok(r), "refused");
}
void h_table_add(void) {
    mk();
    mk_ctx();
    ND_BYTES("D", D);
    in.ptr = D;
    size_t rem = 0;
#ifdef VP_REM
    rem = ND_SIZE("rem");
    VP_ASSUME(rem > 0 && rem < 32 && 32 * VP_N + rem <= 255);
#else
    watch();
#endif
    uint8_t n = T.count, m = c.distinct_tokens_count;
    in.size = 32 * VP_N + rem;
    in.offset = 0;
    ergo_tx_serializer_table_result_e r = ergo_tx_serializer_table_add(&c, &in);
    unsigned room = m > n ? m - n : 0;
    if (rem != 0 || VP_N > room) {
        CHECK(!table_res_ok(r) && T.count <= TOKEN_MAX_COUNT, "a list that is too long or ends inside an id is refused");
    } else {
        CHECK(T.count == n + VP_N && in.offset == in.size, "every id of the list is stored");
        CHECK(r == (T.count >= m ? ERGO_TX_SERIALIZER_TABLE_RES_OK : ERGO_TX_SERIALIZER_TABLE_RES_MORE_DATA),
              "complete exactly when all announced ids are there");
        CHECK(ergo_tx_serializer_table_is_finished(&c) == (T.count >= m), "finished when complete");
        bool inside = GT_r >= n && GT_r < n + VP_N;
        CHECK(cell() == (inside ? D[32 * (GT_r - n) + GT_c] : cell0), "the stored ids are the given ones, in order, and nothing else changes");
    }
#ifndef VP_REM
    REACH(r == ERGO_TX_SERIALIZER_TABLE_RES_OK, "complete");
    REACH(r == ERGO_TX_SERIALIZER_TABLE_RES_MORE_DATA, "more");
#endif
    REACH_IF(VP_N > 0 or VP_REM, !table_res_ok(r), "refused");
}
void h_table_hash(void) {
    mk();
    mk_ctx();
    hash.active = true;
    hash.at = ND_U8("at");
    watch();
    for (unsigned n = 0; n <= TOKEN_MAX_COUNT; n++)
        if (c.distinct_tokens_count == n) {
            c.distinct_tokens_count = (uint8_t) n;
            cx_blake2b_t h0 = hash;
            uint8_t f0 = G.fails;
            uint8_t n0 = T.count;
            ergo_tx_serializer_table_result_e r = ergo_tx_serializer_table_hash(&c, &hash);
            CHECK(post_table_hash(&c, &hash, r, h0, f0), "hashed: the count, then every id in order");
            CHECK(T.count == n0 && cell() == cell0, "hashing changes no table");
            if (n == 20) {
                REACH(table_res_ok(r), "hashed");
                REACH(!table_res_ok(r), "failed");
            }
            CASE_END;
        }
}
