/* Units: src/commands/signtx/stx_output.[ch] */
#include <string.h>
#include "vp_ghost.h"
#include "ergo_c.h"
#include "commands/signtx/stx_output.h"
#include "sw.h"

static sign_transaction_output_info_ctx_t c, c0;
static token_table_t T;
static uint8_t D[256], ID[32], fails0, wb;
static uint8_t w; /* watched amount */
static uint64_t amounts0[TOKEN_MAX_COUNT];
#define TYPE(x) ((x)->state & 0x3F)
#define SET(x) (((x)->state & 0x40) != 0)
#define DONE(x) (((x)->state & 0x80) != 0)
#define UNKNOWN SIGN_TRANSACTION_OUTPUT_INFO_TYPE_UNKNOWN
#define SCRIPT SIGN_TRANSACTION_OUTPUT_INFO_TYPE_SCRIPT

/* invariant: the recipient is known exactly if it is of a kind other than a script in progress,
 * and a script in progress has a live hash */
static bool inv(const sign_transaction_output_info_ctx_t *x) {
    if (TYPE(x) > SIGN_TRANSACTION_OUTPUT_INFO_TYPE_MINERS_FEE) return false;
    if (TYPE(x) == UNKNOWN) return !SET(x);
    if (TYPE(x) != SCRIPT) return SET(x);
    return SET(x) && DONE(x) ? true : x->tree_hash_ctx.active;
}
static uint8_t recipient(const sign_transaction_output_info_ctx_t *x) { return ((const uint8_t *) &x->tree_hash_ctx)[wb]; }
static void mk(void) {
    vp_ghost_init();
    c.value = ND_U64("value");
    c.state = ND_U8("state");
    c.tokens_table = &T;
    for (unsigned i = 0; i < TOKEN_MAX_COUNT; i++) amounts0[i] = c.tokens[i] = ND_U64("amount");
    c.tree_hash_ctx.active = ND_BOOL("active");
    c.tree_hash_ctx.len = ND_SIZE("hashed");
    VP_ASSUME(c.tree_hash_ctx.len <= MAX_TX_DATA_PART_LEN);
    c.tree_hash_ctx.at = ND_U8("at");
    VP_ASSUME(inv(&c));
    w = ND_U8("w");
    wb = ND_U8("wb");
    VP_ASSUME(w < TOKEN_MAX_COUNT && wb < sizeof(sign_transaction_bip32_path_t));
    c0 = c;
    fails0 = G.fails;
}
static bool frame(void) { return c.value == c0.value && c.tokens[w] == amounts0[w] && c.tokens_table == &T; }
static bool untouched(void) { return frame() && c.state == c0.state && recipient(&c) == recipient(&c0) && G.finals == 0; }

void h_output_init(void) {
    mk();
    uint64_t v = ND_U64("v");
    stx_output_info_init(&c, v, &T);
    CHECK(c.value == v && c.tokens[w] == 0 && TYPE(&c) == UNKNOWN && !SET(&c) && !DONE(&c) && c.tokens_table == &T && inv(&c), "an output starts with its value, no token and no recipient");
    REACH(amounts0[w] != 0, "cleared");
}
void h_output_bip32(void) {
    mk();
    uint32_t path[MAX_BIP32_PATH];
    for (unsigned i = 0; i < MAX_BIP32_PATH; i++) path[i] = ND_U32("path");
    uint8_t len = ND_U8("len"), k = ND_U8("k");
    VP_ASSUME(len <= MAX_BIP32_PATH && k < len);
    uint16_t sw = stx_output_info_set_bip32(&c, path, len);
    if (TYPE(&c0) != UNKNOWN) {
        CHECK(sw != SW_OK && untouched(), "a recipient is set once");
    } else {
        CHECK(sw == SW_OK && TYPE(&c) == SIGN_TRANSACTION_OUTPUT_INFO_TYPE_BIP32 && SET(&c) && DONE(&c) == DONE(&c0) && frame(), "the own path is the recipient");
        CHECK(c.bip32_path.len == len && c.bip32_path.path[k] == path[k], "the whole path is kept");
    }
    CHECK(inv(&c), "recipient state is consistent");
    REACH(sw == SW_OK && len == 10, "set"); REACH(sw != SW_OK, "refused");
}
void h_output_fee(void) {
    mk();
    uint16_t sw = stx_output_info_set_fee(&c);
    if (TYPE(&c0) != UNKNOWN) CHECK(sw != SW_OK && untouched(), "a recipient is set once");
    else CHECK(sw == SW_OK && TYPE(&c) == SIGN_TRANSACTION_OUTPUT_INFO_TYPE_MINERS_FEE && SET(&c) && DONE(&c) == DONE(&c0) && frame(), "the fee is the recipient");
    CHECK(inv(&c), "recipient state is consistent");
    REACH(sw == SW_OK, "set"); REACH(sw != SW_OK, "refused");
}
/* the digest kept is that of the whole streamed script */
static bool script_done(const st_t *s) {
    return G.finals == 1 && st_eq(s, G.fin_len, G.fin_at) && eq_bytes(c.tree_hash, G.digest, 32);
}
static void chunk(size_t len) {
    bool last = ND_BOOL("last");
    uint16_t sw = stx_output_info_add_tree_chunk(&c, D, (uint16_t) len, last);
    bool failed = G.fails != fails0;
    if ((TYPE(&c0) != UNKNOWN && TYPE(&c0) != SCRIPT) || SET(&c0)) {
        CHECK(sw != SW_OK && untouched(), "a recipient is set once");
        return;
    }
    CHECK(frame(), "value and tokens are not touched");
    if (failed) {
        CHECK(sw != SW_OK, "a failed hash is reported");
        return;
    }
    CHECK(sw == SW_OK && DONE(&c) == DONE(&c0) && inv(&c), "the chunk is accepted");
    st_t s;
    if (TYPE(&c0) == SCRIPT) st_begin(&s, &c0.tree_hash_ctx);
    else st_zero(&s);
    st_bytes(&s, D, len);
    if (TYPE(&c0) == UNKNOWN && last && len == 36 && spec_is_p2pk_tree(D)) {
        CHECK(TYPE(&c) == SIGN_TRANSACTION_OUTPUT_INFO_TYPE_ADDRESS && SET(&c) && eq_bytes(c.public_key, D + 3, 33), "a whole pay-to-key script is an address of its key");
    } else if (TYPE(&c0) == UNKNOWN && last && len == 44 && spec_is_p2sh_tree(D)) {
        CHECK(TYPE(&c) == SIGN_TRANSACTION_OUTPUT_INFO_TYPE_SCRIPT_HASH && SET(&c) && eq_bytes(c.tree_hash, D + 17, 24), "a whole pay-to-script-hash script is shown as that hash");
    } else {
        CHECK(TYPE(&c) == SCRIPT && SET(&c) == last, "any other script is shown by its hash, complete with its last chunk");
        if (last && DONE(&c0)) CHECK(script_done(&s), "the hash shown covers the whole script");
        else CHECK(G.finals == 0 && st_is(&s, &c.tree_hash_ctx), "exactly the chunk is added to the script's hash");
    }
}
void h_output_chunk(void) {
    mk();
    for (unsigned i = 0; i < 256; i++) D[i] = ND_U8("D");
    size_t len = ND_SIZE("len");
    VP_ASSUME(len <= 255);
    if (len == 36) {
        chunk(36);
        REACH(TYPE(&c) == SIGN_TRANSACTION_OUTPUT_INFO_TYPE_ADDRESS && TYPE(&c0) == UNKNOWN, "address");
        CASE_END;
    }
    if (len == 44) {
        chunk(44);
        REACH(TYPE(&c) == SIGN_TRANSACTION_OUTPUT_INFO_TYPE_SCRIPT_HASH && TYPE(&c0) == UNKNOWN, "script hash");
        CASE_END;
    }
    chunk(len);
    REACH(TYPE(&c) == SCRIPT && TYPE(&c0) == UNKNOWN, "script"); REACH(TYPE(&c) == SCRIPT && TYPE(&c0) == SCRIPT, "more"); REACH(G.finals == 1, "complete"); REACH(G.fails != fails0, "failed");
}
void h_output_finished(void) {
    mk();
    VP_ASSUME(!DONE(&c)); /* reported once per output: harness/box.c */
    ergo_tx_serializer_box_result_e r = stx_output_info_set_box_finished(&c);
    CHECK(frame() && DONE(&c) && TYPE(&c) == TYPE(&c0) && SET(&c) == SET(&c0), "the output is complete, and nothing else changes");
    CHECK(stx_output_info_is_finished(&c) == SET(&c0), "an output is complete when its recipient and its content are");
    if (G.fails != fails0) {
        CHECK(r >= 1 && r <= ERGO_TX_SERIALIZER_BOX_RES_ERR_SMALL_CHUNK, "a failed hash is reported");
    } else {
        CHECK(r == ERGO_TX_SERIALIZER_BOX_RES_OK && inv(&c), "completion is accepted");
        if (TYPE(&c0) == SCRIPT && SET(&c0)) {
            st_t s;
            st_begin(&s, &c0.tree_hash_ctx);
            CHECK(script_done(&s), "the hash shown covers the whole script");
        } else {
            CHECK(recipient(&c) == recipient(&c0) && G.finals == 0, "the recipient is not touched");
        }
    }
    REACH(G.finals == 1, "script"); REACH(G.fails != fails0, "failed"); REACH(!SET(&c), "recipient open");
}
void h_output_token(void) {
    mk();
    ND_BYTES("T", T.tokens);
    T.count = ND_U8("count");
    VP_ASSUME(T.count <= TOKEN_MAX_COUNT);
    ND_BYTES("ID", ID);
    uint64_t v = ND_U64("v");
    unsigned at = TOKEN_MAX_COUNT;
    uint64_t old = 0;
    for (unsigned i = TOKEN_MAX_COUNT; i-- > 0;) {
        bool same = i < T.count;
        for (unsigned b = 0; b < 32; b++) same = same && T.tokens[i][b] == ID[b];
        if (same) {
            at = i;
            old = amounts0[i];
        }
    }
    ergo_tx_serializer_box_result_e r = stx_output_info_add_token(&c, ID, v);
    bool ok = at < TOKEN_MAX_COUNT && old == 0;
    CHECK((r == ERGO_TX_SERIALIZER_BOX_RES_OK) == ok, "a token is refused exactly when it is unknown or repeated");
    if (!ok) CHECK(r >= 1 && r <= ERGO_TX_SERIALIZER_BOX_RES_ERR_SMALL_CHUNK, "a refusal is an error");
    CHECK(c.tokens[w] == (ok && w == at ? v : amounts0[w]), "exactly this token has exactly the streamed amount");
    CHECK(c.value == c0.value && c.state == c0.state && recipient(&c) == recipient(&c0), "nothing else changes");
    REACH(ok, "stored"); REACH(at == TOKEN_MAX_COUNT, "unknown"); REACH(old != 0, "repeated");
}
void h_output_used(void) {
    mk();
    uint8_t k = ND_U8("k");
    uint8_t n = stx_output_info_used_tokens_count(&c), i = stx_output_info_used_token_index(&c, k);
    unsigned want_n = 0, want_i = INDEX_NOT_EXIST;
    for (unsigned x = 0; x < TOKEN_MAX_COUNT; x++)
        if (amounts0[x] != 0) {
            if (want_n == k) want_i = x;
            want_n++;
        }
    CHECK(n == want_n, "every token of the output is counted");
    CHECK(i == want_i, "the k-th token of the output is found, and nothing behind the last");
    CHECK(untouched(), "nothing changes");
    REACH(n == 20 && i == 19, "all"); REACH(n == 0, "none"); REACH(i == INDEX_NOT_EXIST, "absent");
}
