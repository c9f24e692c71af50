/* Units: src/commands/signtx/stx_amounts.[ch] */
#include <string.h>
#include "vp_ghost.h"
#include "commands/signtx/stx_amounts.h"

static sign_transaction_amounts_ctx_t c;
static uint8_t ID[32], BOX[32];
static uint8_t w, wr, wc, cell0, count0; /* watched total; watched table cell */
static int64_t total0, totals0[TOKEN_MAX_COUNT];
static uint64_t value0, fee0;

static void mk(void) {
    vp_ghost_init();
    ND_BYTES("T", c.tokens_table.tokens);
    c.tokens_table.count = ND_U8("count");
    VP_ASSUME(c.tokens_table.count <= TOKEN_MAX_COUNT);
    for (unsigned i = 0; i < TOKEN_MAX_COUNT; i++) totals0[i] = c.tokens[i] = ND_I64("total");
    c.value = ND_U64("value");
    c.fee = ND_U64("fee");
    w = ND_U8("w");
    wr = ND_U8("wr");
    wc = ND_U8("wc");
    VP_ASSUME(w < TOKEN_MAX_COUNT && wr < TOKEN_MAX_COUNT && wc < 32);
    total0 = c.tokens[w];
    cell0 = c.tokens_table.tokens[wr][wc];
    count0 = c.tokens_table.count;
    value0 = c.value;
    fee0 = c.fee;
    ND_BYTES("ID", ID);
}
/* the entry equal to ID in all bytes, or TOKEN_MAX_COUNT */
static unsigned find(void) {
    unsigned at = TOKEN_MAX_COUNT;
    for (unsigned i = TOKEN_MAX_COUNT; i-- > 0;) {
        bool same = i < c.tokens_table.count;
        for (unsigned b = 0; b < 32; b++) same = same && c.tokens_table.tokens[i][b] == ID[b];
        if (same) at = i;
    }
    return at;
}
static bool table_same(void) { return c.tokens_table.count == count0 && c.tokens_table.tokens[wr][wc] == cell0; }
static bool fits(__int128 x) { return x >= INT64_MIN && x <= INT64_MAX; }

void h_amounts_init(void) {
    mk();
    stx_amounts_init(&c);
    CHECK(c.value == 0 && c.fee == 0 && c.tokens[w] == 0 && c.tokens_table.count == 0 && c.tokens_table.tokens[wr][wc] == 0, "the totals start at zero, with no token");
    REACH(total0 != 0, "cleared");
}
void h_amounts_input(void) {
    mk();
    uint64_t v = ND_U64("v");
    uint16_t sw = stx_amounts_add_input(&c, v);
    bool ok = UINT64_MAX - value0 >= v;
    CHECK((sw == SW_OK) == ok, "an input that overflows the total is refused, and only then");
    if (ok) CHECK(c.value == value0 + v, "the value grows by exactly the input");
    CHECK(c.fee == fee0 && c.tokens[w] == total0 && table_same(), "nothing else changes");
    REACH(ok, "added"); REACH(!ok, "overflow");
}
void h_amounts_input_token(void) {
    mk();
    uint64_t v = ND_U64("v");
    unsigned at = find();
    bool known = at < TOKEN_MAX_COUNT, room = count0 < TOKEN_MAX_COUNT;
    unsigned slot = known ? at : count0;
    int64_t old = 0;
    for (unsigned i = 0; i < TOKEN_MAX_COUNT; i++)
        if (known && i == at) old = totals0[i];
    __int128 sum = (__int128) old + v;
    ergo_tx_serializer_input_result_e r = stx_amounts_add_input_token(&c, BOX, ID, v);
    bool ok = (known || room) && fits(sum);
    CHECK((r == ERGO_TX_SERIALIZER_INPUT_RES_OK) == ok, "a token amount is refused exactly when its total overflows or the token has no place");
    if (ok) {
        CHECK(c.tokens[w] == (w == slot ? (int64_t) sum : total0), "exactly this token's total grows by exactly the amount");
        CHECK(c.tokens_table.count == count0 + (known ? 0 : 1), "a new token is added to the table once");
        CHECK(c.tokens_table.tokens[wr][wc] == (!known && wr == count0 ? ID[wc] : cell0), "a new token is added under its own id");
    } else {
        CHECK(r >= 1 && r <= ERGO_TX_SERIALIZER_INPUT_RES_ERR_TOO_MANY_TOKENS, "a refusal is an error");
    }
    CHECK(c.value == value0 && c.fee == fee0, "values are not touched");
    REACH(ok && known, "known"); REACH(ok && !known, "new"); REACH(!ok && known, "overflow"); REACH(!known && !room, "full");
}
void h_amounts_output(void) {
    mk();
    uint64_t v = ND_U64("v");
    uint8_t t = ND_U8("type");
    VP_ASSUME(t <= ERGO_TX_SERIALIZER_BOX_TYPE_TREE);
    ergo_tx_serializer_box_result_e r = stx_amounts_add_output(&c, (ergo_tx_serializer_box_type_e) t, v);
    bool tree = t == ERGO_TX_SERIALIZER_BOX_TYPE_TREE, fee = t == ERGO_TX_SERIALIZER_BOX_TYPE_FEE;
    bool ok = tree || (v <= value0 && (!fee || UINT64_MAX - fee0 >= v));
    CHECK((r == ERGO_TX_SERIALIZER_BOX_RES_OK) == ok, "an output is refused exactly when a total would overflow");
    if (ok) {
        CHECK(c.value == (tree ? value0 : value0 - v), "own change and fee reduce the value sent to others by exactly their value");
        CHECK(c.fee == (fee ? fee0 + v : fee0), "the fee grows by exactly the fee outputs");
    } else {
        CHECK(r >= 1 && r <= ERGO_TX_SERIALIZER_BOX_RES_ERR_SMALL_CHUNK, "a refusal is an error");
    }
    CHECK(c.tokens[w] == total0 && table_same(), "token totals are not touched");
    REACH(tree, "other"); REACH(ok && fee, "fee"); REACH(ok && !fee && !tree, "change"); REACH(!ok, "overflow");
}
void h_amounts_output_token(void) {
    mk();
    uint64_t v = ND_U64("v");
    uint8_t t = ND_U8("type");
    VP_ASSUME(t <= ERGO_TX_SERIALIZER_BOX_TYPE_TREE);
    unsigned at = find();
    bool known = at < TOKEN_MAX_COUNT;
    int64_t old = 0;
    for (unsigned i = 0; i < TOKEN_MAX_COUNT; i++)
        if (known && i == at) old = totals0[i];
    __int128 diff = (__int128) old - v;
    ergo_tx_serializer_box_result_e r = stx_amounts_add_output_token(&c, (ergo_tx_serializer_box_type_e) t, ID, v);
    bool ok = known && fits(diff);
    CHECK((r == ERGO_TX_SERIALIZER_BOX_RES_OK) == ok, "a token amount is refused exactly when its total overflows or the token is unknown");
    if (ok) CHECK(c.tokens[w] == (w == at ? (int64_t) diff : total0), "exactly this token's total falls by exactly the amount");
    else CHECK(r >= 1 && r <= ERGO_TX_SERIALIZER_BOX_RES_ERR_SMALL_CHUNK, "a refusal is an error");
    CHECK(c.value == value0 && c.fee == fee0 && table_same(), "nothing else changes");
    REACH(ok, "subtracted"); REACH(!known, "unknown"); REACH(known && !ok, "overflow");
}
void h_amounts_nonzero(void) {
    mk();
    uint8_t k = ND_U8("k");
    uint8_t n = stx_amounts_non_zero_tokens_count(&c), i = stx_amounts_non_zero_token_index(&c, k);
    unsigned want_n = 0, want_i = INDEX_NOT_EXIST;
    for (unsigned x = 0; x < TOKEN_MAX_COUNT; x++)
        if (totals0[x] != 0) {
            if (want_n == k) want_i = x;
            want_n++;
        }
    CHECK(n == want_n, "every token with a nonzero balance is counted");
    CHECK(i == want_i, "the k-th token with a nonzero balance is found, and nothing behind the last");
    CHECK(c.tokens[w] == total0 && c.value == value0 && c.fee == fee0 && table_same(), "nothing changes");
    REACH(n == 20 && i == 19, "all"); REACH(n == 0, "none"); REACH(i == INDEX_NOT_EXIST, "absent");
}
