/* Units: src/commands/signtx/operations/stx_op_p2pk.c, src/context.c
 * The serializer, the amounts, the output record, key derivation, the signature and the screens are not
 * linked: they are the recorders below, whose results range over everything their own units allow. */
#include <string.h>
#include "vp_ghost.h"
#include "bip32_c.h"
#include "context.h"
#include "sw.h"
#include "ergo/schnorr.h"
#include "helpers/crypto.h"
#include "commands/signtx/stx_ui.h"

typedef sign_transaction_operation_p2pk_ctx_t ctx_t;
#define CTX (&app_sign_transaction_context()->p2pk)
#define TX (&CTX->transaction.tx)
#define OUT (&CTX->transaction.ui.output)
#define BYTES ((uint8_t *) &G_app_context)
#define ST(x) SIGN_TRANSACTION_OPERATION_P2PK_STATE_##x
#define ERROR_SW(sw) ((sw) != SW_OK && ((sw) >> 12) >= 6 && ((sw) >> 8) != 0x61 && ((sw) >> 8) != 0x90)
#define FROM offsetof(app_ctx_t, commands_ctx)

static size_t wb;      /* watched byte of the application state */
static uint8_t before;
static unsigned s0;    /* state before */
static bool in_(const void *p, size_t n) {
    size_t o = (size_t) ((const uint8_t *) p - BYTES);
    return wb >= o && wb < o + n;
}
#define IN(f) in_(&CTX->f, sizeof CTX->f)
static void watch(void) {
    wb = ND_SIZE("wb");
    VP_ASSUME(wb < sizeof(app_ctx_t));
    BYTES[wb] = ND_U8("app");
    G_app_context.current_command = CMD_SIGN_TRANSACTION;
    G_app_context.is_ui_busy = ND_BOOL("busy");
}
static void mk(void) {
    vp_ghost_init();
    watch();
    s0 = ND_U8("state");
    VP_ASSUME(s0 <= ST(ERROR));
    CTX->state = s0;
    unsigned t = ND_U8("txstate");
    VP_ASSUME(t <= ERGO_TX_SERIALIZER_FULL_STATE_ERROR);
    if (s0 >= ST(TX_STARTED) && s0 <= ST(TX_FINISHED)) TX->state = t;
    before = BYTES[wb];
}
static bool same(void) { return BYTES[wb] == before; }
/* the attempt is over: nothing of it is left */
static bool gone(void) {
    return app_current_command() == CMD_NONE && !app_is_ui_busy() && (wb < FROM || wb >= FROM + MEMBER_SIZE(app_ctx_t, commands_ctx) || BYTES[wb] == 0);
}
static bool on(void) { return app_current_command() == CMD_SIGN_TRANSACTION; }
#define REFUSED(sw) CHECK(ERROR_SW(sw) && gone(), "a failed step reports an error and ends the attempt")

/* recorders: how often, in which order, with what, and the answer */
typedef struct {
    uint8_t n, seq;
    const void *p[5];
    uint64_t v[5];
    unsigned r;
} rec_t;
static uint8_t seq;
static rec_t S /* serializer step */, SET_IN, A /* amounts */, O /* output record */, K /* key */, I /* sign init */, F /* sign finish */, U /* screens */, D /* display */;
enum { INIT = 1, TOKENS, INPUT, INPUT_TOKENS, INPUT_EXT, DATA, BOX, TREE, CHANGE, FEE, BTOKENS, REGS,
       IN_TOKEN, OUT_TYPE, OUT_TOKEN, O_BIP32, O_FEE, O_CHUNK, O_TOKEN, O_DONE, U_PATH, U_APPROVE, U_OUTPUT, U_TX };
static void rec(rec_t *x, unsigned op, const void *p0, const void *p1, const void *p2, uint64_t v1, uint64_t v2, uint64_t v3, uint64_t v4) {
    x->n = vp_inc(x->n);
    x->seq = seq = vp_inc(seq);
    x->p[0] = p0;
    x->p[1] = p1;
    x->p[2] = p2;
    x->v[0] = op;
    x->v[1] = v1;
    x->v[2] = v2;
    x->v[3] = v3;
    x->v[4] = v4;
}
static bool is(const rec_t *x, unsigned op, const void *p0, const void *p1, const void *p2, uint64_t v1, uint64_t v2, uint64_t v3, uint64_t v4) {
    return x->n == 1 && x->v[0] == op && x->p[0] == p0 && x->p[1] == p1 && x->p[2] == p2 && x->v[1] == v1 && x->v[2] == v2 && x->v[3] == v3 && x->v[4] == v4;
}
typedef ergo_tx_serializer_full_result_e full_t;
static full_t answer(ergo_tx_serializer_full_context_t *c, bool more) {
    uint8_t x = ND_U8("tx_result");
    VP_ASSUME((x >= 1 && x <= ERGO_TX_SERIALIZER_FULL_RES_ERR_SMALL_CHUNK) || x == ERGO_TX_SERIALIZER_FULL_RES_OK || (more && x == ERGO_TX_SERIALIZER_FULL_RES_MORE_DATA));
    S.r = x;
    uint8_t t = ND_U8("tx_after");
    VP_ASSUME(t <= ERGO_TX_SERIALIZER_FULL_STATE_ERROR);
    if (x < 0x7E) t = ERGO_TX_SERIALIZER_FULL_STATE_ERROR;
    c->state = t;
    return (full_t) x;
}
static bool good(void) { return S.r == ERGO_TX_SERIALIZER_FULL_RES_OK || S.r == ERGO_TX_SERIALIZER_FULL_RES_MORE_DATA; }
typedef ergo_tx_serializer_full_context_t *fc_t;
full_t ergo_tx_serializer_full_init(fc_t c, uint16_t i, uint16_t d, uint16_t o, uint8_t t, cx_blake2b_t *h, token_table_t *tt) {
    rec(&S, INIT, c, h, tt, i, d, o, t);
    return answer(c, false);
}
full_t ergo_tx_serializer_full_add_tokens(fc_t c, buffer_t *b) { rec(&S, TOKENS, c, b, NULL, 0, 0, 0, 0); return answer(c, true); }
full_t ergo_tx_serializer_full_add_input(fc_t c, const uint8_t *id, uint8_t f, uint32_t e) {
    rec(&S, INPUT, c, id, NULL, f, e, 0, 0);
    full_t r = answer(c, true);
    memset(&c->input_ctx, 0, sizeof c->input_ctx);
    return r;
}
full_t ergo_tx_serializer_full_add_input_tokens(fc_t c, const uint8_t *id, uint8_t f, buffer_t *b) { rec(&S, INPUT_TOKENS, c, id, b, f, 0, 0, 0); return answer(c, true); }
full_t ergo_tx_serializer_full_add_input_context_extension(fc_t c, buffer_t *b) { rec(&S, INPUT_EXT, c, b, NULL, 0, 0, 0, 0); return answer(c, true); }
full_t ergo_tx_serializer_full_add_data_inputs(fc_t c, buffer_t *b) { rec(&S, DATA, c, b, NULL, 0, 0, 0, 0); return answer(c, true); }
full_t ergo_tx_serializer_full_add_box(fc_t c, uint64_t v, uint32_t t, uint32_t h, uint8_t n, uint32_t r) {
    rec(&S, BOX, c, NULL, NULL, v, ((uint64_t) t << 32) | h, n, r);
    full_t x = answer(c, true);
    memset(&c->box_ctx, 0, sizeof c->box_ctx);
    return x;
}
full_t ergo_tx_serializer_full_add_box_ergo_tree(fc_t c, buffer_t *b) {
    rec(&S, TREE, c, b, b->ptr, b->offset, b->size, 0, 0);
    b->offset = b->size;
    return answer(c, true);
}
full_t ergo_tx_serializer_full_add_box_change_tree(fc_t c, const uint8_t k[static PUBLIC_KEY_LEN]) { rec(&S, CHANGE, c, k, NULL, 0, 0, 0, 0); return answer(c, true); }
full_t ergo_tx_serializer_full_add_box_miners_fee_tree(fc_t c, bool m) { rec(&S, FEE, c, NULL, NULL, m, 0, 0, 0); return answer(c, true); }
full_t ergo_tx_serializer_full_add_box_tokens(fc_t c, buffer_t *b) { rec(&S, BTOKENS, c, b, NULL, 0, 0, 0, 0); return answer(c, true); }
full_t ergo_tx_serializer_full_add_box_registers(fc_t c, buffer_t *b) { rec(&S, REGS, c, b, NULL, 0, 0, 0, 0); return answer(c, true); }

static uint8_t res_(rec_t *x, const char *tag, uint8_t max, bool more) {
    uint8_t r = ND_U8("listener");
    (void) tag;
    VP_ASSUME((r >= 1 && r <= max) || r == 0x7F || (more && r == 0x7E));
    x->r = r;
    return r;
}
ergo_tx_serializer_input_result_e stx_amounts_add_input_token(sign_transaction_amounts_ctx_t *c, const uint8_t b[static ERGO_ID_LEN], const uint8_t t[static ERGO_ID_LEN], uint64_t v) {
    rec(&A, IN_TOKEN, c, b, t, v, 0, 0, 0);
    return (ergo_tx_serializer_input_result_e) res_(&A, "", 0x0C, false);
}
typedef ergo_tx_serializer_box_result_e box_t;
typedef ergo_tx_serializer_box_type_e type_t;
box_t stx_amounts_add_output(sign_transaction_amounts_ctx_t *c, type_t t, uint64_t v) {
    rec(&A, OUT_TYPE, c, NULL, NULL, t, v, 0, 0);
    return (box_t) res_(&A, "", ERGO_TX_SERIALIZER_BOX_RES_ERR_SMALL_CHUNK, false);
}
box_t stx_amounts_add_output_token(sign_transaction_amounts_ctx_t *c, type_t t, const uint8_t id[static ERGO_ID_LEN], uint64_t v) {
    rec(&A, OUT_TOKEN, c, id, NULL, t, v, 0, 0);
    return (box_t) res_(&A, "", ERGO_TX_SERIALIZER_BOX_RES_ERR_SMALL_CHUNK, false);
}
static uint16_t sw_(rec_t *x) {
    uint16_t r = ND_BOOL("step_ok") ? SW_OK : ND_U16("step_sw");
    VP_ASSUME(r == SW_OK || ERROR_SW(r));
    return x->r = r;
}
typedef sign_transaction_output_info_ctx_t *oc_t;
uint16_t stx_output_info_set_bip32(oc_t c, const uint32_t *p, uint8_t n) { rec(&O, O_BIP32, c, p, NULL, n, 0, 0, 0); return sw_(&O); }
uint16_t stx_output_info_set_fee(oc_t c) { rec(&O, O_FEE, c, NULL, NULL, 0, 0, 0, 0); return sw_(&O); }
uint16_t stx_output_info_add_tree_chunk(oc_t c, const uint8_t *p, uint16_t n, bool fin) { rec(&O, O_CHUNK, c, p, NULL, n, fin, 0, 0); return sw_(&O); }
box_t stx_output_info_add_token(oc_t c, const uint8_t id[static ERGO_ID_LEN], uint64_t v) {
    rec(&O, O_TOKEN, c, id, NULL, v, 0, 0, 0);
    return (box_t) res_(&O, "", ERGO_TX_SERIALIZER_BOX_RES_ERR_SMALL_CHUNK, false);
}
box_t stx_output_info_set_box_finished(oc_t c) {
    rec(&O, O_DONE, c, NULL, NULL, 0, 0, 0, 0);
    return (box_t) res_(&O, "", ERGO_TX_SERIALIZER_BOX_RES_ERR_SMALL_CHUNK, false);
}
static uint8_t used;
uint8_t stx_output_info_used_tokens_count(const sign_transaction_output_info_ctx_t *c) { (void) c; return used; }

/* secrets: 32 bytes on the stack of the caller, and the nonce in the state */
static uint8_t secret[32];
uint16_t crypto_generate_private_key(const uint32_t *p, uint8_t n, uint8_t k[static PRIVATE_KEY_LEN]) {
    rec(&K, 0, p, k, NULL, n, 0, 0, 0);
    GK.path_len = n;
    for (unsigned i = 0; i < 10; i++) if (i < n) GK.path[i] = p[i];
    if (ND_BOOL("no_key")) return K.r = 1;
    for (int i = 0; i < 32; i++) k[i] = secret[i] = ND_U8("secret");
    GK.prod = k;
    GK.prod_live = true;
    return K.r = 0;
}
static bool is_secret(const uint8_t *k) {
    for (int i = 0; i < 32; i++) if (k[i] != secret[i]) return false;
    return true;
}
bool ergo_secp256k1_schnorr_p2pk_sign_init(cx_blake2b_t *h, uint8_t y[static PRIVATE_KEY_LEN], const uint8_t k[static PRIVATE_KEY_LEN]) {
    rec(&I, is_secret(k), h, y, k, 0, 0, 0, 0);
    GK.chain = y;
    GK.chain_live = true;
    for (int i = 0; i < 32; i++) y[i] = ND_U8("nonce");
    return I.r = ND_BOOL("started");
}
static uint8_t sig_at;
static uint8_t nonce[32];
bool ergo_secp256k1_schnorr_p2pk_sign_finish(uint8_t s[static ERGO_SIGNATURE_LEN], cx_blake2b_t *h, const uint8_t k[static PRIVATE_KEY_LEN], const uint8_t y[static PRIVATE_KEY_LEN]) {
    bool same_nonce = true;
    for (int i = 0; i < 32; i++) if (y[i] != nonce[i]) same_nonce = false;
    rec(&F, is_secret(k), h, y, k, same_nonce, 0, 0, 0);
    for (int i = 0; i < ERGO_SIGNATURE_LEN; i++) {
        uint8_t b = ND_U8("signature");
        s[i] = b;
        if (G_k == (size_t) i) sig_at = b;
    }
    return F.r = ND_BOOL("signed");
}

/* screens */
static const ux_flow_step_t PATH_STEP;
static ui_bip32_approve_callback path_cb;
static void *path_ctx;
const ux_flow_step_t *ui_bip32_path_screen(uint32_t *p, uint8_t n, const char *title, char *b, uint8_t bl, ui_bip32_approve_callback cb, void *cc) {
    rec(&K, U_PATH, p, b, title, n, bl, 0, 0);
    path_cb = cb;
    path_ctx = cc;
    return (K.r = ND_BOOL("path_shown")) ? &PATH_STEP : NULL;
}
bool ui_stx_add_operation_approve_screens(sign_transaction_ui_aprove_ctx_t *c, uint8_t *screen, uint32_t app, bool known, sign_transaction_ctx_t *tx) {
    rec(&U, U_APPROVE, c, tx, NULL, *screen, app, known, 0);
    *screen = ND_U8("screens");
    return U.r = ND_BOOL("added");
}
bool ui_stx_add_output_screens(sign_transaction_ui_output_confirm_ctx_t *c, uint8_t *screen, const sign_transaction_output_info_ctx_t *o, sign_transaction_bip32_path_t *last, uint8_t net) {
    rec(&U, U_OUTPUT, c, o, last, *screen, net, 0, 0);
    *screen = ND_U8("screens");
    return U.r = ND_BOOL("added");
}
static ui_sign_transaction_operation_show_screen_cb show_cb;
static ui_sign_transaction_operation_send_response_cb send_cb;
static void *cb_ctx;
bool ui_stx_add_transaction_screens(sign_transaction_ui_sign_confirm_ctx_t *c, uint8_t *screen, const sign_transaction_amounts_ctx_t *a, uint8_t n,
                                    ui_sign_transaction_operation_show_screen_cb scb, ui_sign_transaction_operation_send_response_cb rcb, void *cc) {
    rec(&U, U_TX, c, a, NULL, *screen, n, 0, 0);
    show_cb = scb;
    send_cb = rcb;
    cb_ctx = cc;
    *screen = ND_U8("screens");
    return U.r = ND_BOOL("added");
}
bool ui_stx_display_screens(uint8_t n) {
    rec(&D, 0, NULL, NULL, NULL, n, 0, 0, 0);
    return D.r = ND_BOOL("displayed");
}
static bool approved_;
static sign_transaction_ui_aprove_ctx_t *approve_ctx;
static uint8_t approvals;
void ui_stx_operation_approve_reject(bool ok, sign_transaction_ui_aprove_ctx_t *c) {
    approvals = vp_inc(approvals);
    approved_ = ok;
    approve_ctx = c;
}
ux_flow_step_t const *G_ux_flow_steps[MAX_NUMBER_OF_SCREENS + 1];

/* ------------------------------------------------------------------ one attempt, step by step */
static buffer_t buf;
static uint8_t ID[32], DATA_[255];
static void mk_buf(void) {
    buf.ptr = DATA_;
    buf.size = ND_U8("size");
    buf.offset = ND_U8("offset");
    VP_ASSUME(buf.offset <= buf.size);
}

#ifndef VP_ALIAS
#define VP_ALIAS 0
#endif
void h_p2pk_init(void) {
    vp_ghost_init();
    watch();
    CTX->state = ST(INITIALIZED);
    static uint32_t other[MAX_BIP32_PATH], path[MAX_BIP32_PATH];
    uint8_t n = ND_U8("len"), net = ND_U8("net");
    VP_ASSUME(n <= MAX_BIP32_PATH);
    for (unsigned i = 0; i < MAX_BIP32_PATH; i++) other[i] = CTX->bip32.path[i] = path[i] = ND_U32("path");
    before = BYTES[wb];
    uint16_t sw = stx_operation_p2pk_init(CTX, VP_ALIAS ? CTX->bip32.path : other, n, net);
    bool valid = spec_path_ok(path, n, BIP32_HARDENED(44), BIP32_HARDENED(BIP32_ERGO_COIN), BIP32_PATH_VALIDATE_ADDRESS_GE5) && (net == 0 || net == 16);
    CHECK(K.n == (valid ? 1 : 0) && (!valid || I.n == (K.r == 0 ? 1 : 0)), "a key is derived only for a valid request, and a nonce drawn only with a key");
    if (valid) {
        bool p = GK.path_len == n;
        for (unsigned i = 0; i < MAX_BIP32_PATH; i++) if (i < n && GK.path[i] != path[i]) p = false;
        CHECK(p, "the key is the one of the whole path");
        if (I.n) CHECK(I.v[0] && I.p[0] == &CTX->tx_hash && I.p[1] == CTX->schnorr_key, "nonce and commitment belong to the derived key");
    }
    CHECK(sw == SW_OK ? (valid && K.r == 0 && I.r) : ERROR_SW(sw) && !(valid && K.r == 0 && I.r), "success is reported exactly if every step succeeded");
    CHECK(!GK.prod_live, "the private key is overwritten on every way out");
    CHECK(sw == SW_OK || !GK.chain_live, "the nonce is overwritten if signing does not start");
    if (sw == SW_OK) {
        bool p = CTX->bip32.len == n;
        for (unsigned i = 0; i < MAX_BIP32_PATH; i++) if (i < n && CTX->bip32.path[i] != path[i]) p = false;
        CHECK(p && CTX->network_id == net && CTX->state == ST(INITIALIZED), "path and network are those of the request");
    }
    CHECK(same() || IN(bip32) || IN(network_id) || IN(state) || IN(schnorr_key) || in_(&G_app_context.current_command, sizeof(command_e)) || in_(&G_app_context.is_ui_busy, 1), "nothing else changes");
    REACH(sw == SW_OK && n == 10, "started"); REACH(valid && K.r != 0, "no key"); REACH(valid && K.r == 0 && !I.r, "no nonce"); REACH(!valid, "refused");
}
void h_p2pk_start(void) {
    mk();
    uint16_t i = ND_U16("i"), d = ND_U16("d"), o = ND_U16("o");
    uint8_t t = ND_U8("t"), k = ND_U8("k");
    VP_ASSUME(k < TOKEN_MAX_COUNT);
    CTX->amounts.value = ND_U64("value");
    CTX->amounts.fee = ND_U64("fee");
    uint16_t sw = stx_operation_p2pk_start_tx(CTX, i, d, o, t);
    bool ok = s0 == ST(INITIALIZED);
    CHECK(ok ? is(&S, INIT, TX, &CTX->tx_hash, &CTX->amounts.tokens_table, i, d, o, t) : S.n == 0, "the transaction starts once, with the announced counts, on this hash and this table");
    if (ok && good()) {
        CHECK(sw == SW_OK && on() && CTX->state == ST(TX_STARTED), "the transaction is started");
        CHECK(CTX->amounts.value == 0 && CTX->amounts.fee == 0 && CTX->amounts.tokens[k] == 0 && CTX->amounts.tokens_table.count == 0, "the totals start at zero with an empty table");
        CHECK(same() || IN(state) || IN(amounts) || IN(transaction.tx), "nothing else changes");
    } else REFUSED(sw);
    REACH(ok && good(), "ok"); REACH(ok && !good(), "refused by the serializer"); REACH(!ok, "out of turn");
}
#define STEP(call, right, op, p1, p2, v1, v2, v3, v4)                                                                                   \
    uint16_t sw = call;                                                                                                             \
    bool ok = right;                                                                                                                \
    CHECK(ok ? is(&S, op, TX, p1, p2, v1, v2, v3, v4) : S.n == 0, "the step is made once, in its turn only, with what was received"); \
    bool out = false;                                                                                                               \
    (void) out;
#define STEP_REACH() REACH(ok && sw == SW_OK, "ok"); REACH(ok && !good(), "refused by the serializer"); REACH(!ok, "out of turn")
#define PLAIN_END(state1)                                                                                 \
    if (ok && good()) {                                                                                   \
        CHECK(sw == SW_OK && on() && CTX->state == (state1), "the step is accepted");                      \
        CHECK(same() || IN(state) || IN(transaction.tx), "nothing else changes");                          \
    } else REFUSED(sw);                                                                                   \
    STEP_REACH()

void h_p2pk_tokens(void) {
    mk();
    mk_buf();
    STEP(stx_operation_p2pk_add_tokens(CTX, &buf), s0 == ST(TX_STARTED), TOKENS, &buf, NULL, 0, 0, 0, 0)
    PLAIN_END(ST(TX_STARTED));
}
void h_p2pk_input(void) {
    mk();
    uint64_t v = ND_U64("v"), v0 = ND_U64("v0");
    uint8_t f = ND_U8("f");
    uint32_t e = ND_U32("e");
    CTX->amounts.value = v0;
    before = BYTES[wb];
    STEP(stx_operation_p2pk_add_input(CTX, ID, v, f, e), s0 == ST(TX_STARTED) || s0 == ST(INPUTS_STARTED), INPUT, ID, NULL, f, e, 0, 0)
    /* TX->state is what the serializer left, unless the listener was refused */
    bool fits = v0 + v >= v0;
    bool listening = sw == SW_OK;
    if (ok && listening) {
        CHECK(good() && fits && on() && CTX->state == ST(INPUTS_STARTED), "success is reported only if every step succeeded");
        CHECK(TX->state == ERGO_TX_SERIALIZER_FULL_STATE_INPUTS_STARTED && TX->input_ctx.on_token_cb != NULL, "the tokens of the input are listened to");
        CHECK(CTX->amounts.value == v0 + v, "the value of the input is added");
        CHECK(same() || IN(state) || IN(transaction.tx) || IN(amounts.value), "nothing else changes");
        A.n = 0;
        uint8_t tid[32];
        uint64_t tv = ND_U64("tv");
        ergo_tx_serializer_input_result_e r = TX->input_ctx.on_token_cb(ID, tid, tv, TX->input_ctx.callback_context);
        CHECK(is(&A, IN_TOKEN, &CTX->amounts, ID, tid, tv, 0, 0, 0) && r == (ergo_tx_serializer_input_result_e) A.r, "every token of the input is added to the totals, and a refusal is passed on");
        REACH(A.r != 0x7F, "token refused"); REACH(A.r == 0x7F, "token added");
    } else REFUSED(sw);
    REACH(ok && !good(), "refused by the serializer"); REACH(!ok, "out of turn"); REACH(ok && good() && !fits, "overflow");
}
void h_p2pk_input_tokens(void) {
    mk();
    mk_buf();
    uint8_t f = ND_U8("f");
    STEP(stx_operation_p2pk_add_input_tokens(CTX, ID, f, &buf), s0 == ST(INPUTS_STARTED), INPUT_TOKENS, ID, &buf, f, 0, 0, 0)
    PLAIN_END(ST(INPUTS_STARTED));
}
void h_p2pk_input_ext(void) {
    mk();
    mk_buf();
    STEP(stx_operation_p2pk_add_input_context_extension(CTX, &buf), s0 == ST(INPUTS_STARTED), INPUT_EXT, &buf, NULL, 0, 0, 0, 0)
    PLAIN_END(ST(INPUTS_STARTED));
}
void h_p2pk_data_inputs(void) {
    mk();
    mk_buf();
    STEP(stx_operation_p2pk_add_data_inputs(CTX, &buf), s0 == ST(INPUTS_STARTED), DATA, &buf, NULL, 0, 0, 0, 0)
    PLAIN_END(ST(INPUTS_STARTED));
}
void h_p2pk_output(void) {
    mk();
    uint64_t v = ND_U64("v");
    uint32_t t = ND_U32("t"), h = ND_U32("h"), r = ND_U32("r");
    uint8_t n = ND_U8("n"), k = ND_U8("k");
    VP_ASSUME(k < TOKEN_MAX_COUNT);
    STEP(stx_operation_p2pk_add_output(CTX, v, t, h, n, r), s0 == ST(INPUTS_STARTED) || s0 == ST(OUTPUTS_STARTED), BOX, NULL, NULL, v, ((uint64_t) t << 32) | h, n, r)
    if (ok && sw == SW_OK) {
        CHECK(good() && on() && CTX->state == ST(OUTPUTS_STARTED), "success is reported only if every step succeeded");
        CHECK(OUT->value == v && OUT->tokens[k] == 0 && OUT->state == 0 && OUT->tokens_table == &CTX->amounts.tokens_table, "the output starts with its value, no token, no recipient, and the tokens of this transaction");
        CHECK(same() || IN(state) || IN(transaction.tx) || IN(transaction.ui.output), "nothing else changes");
        ergo_tx_serializer_box_callbacks_t *l = &TX->box_ctx.callbacks;
        CHECK(TX->state == ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED && l->on_type && l->on_token && l->on_finished, "the content of the output is listened to");
        uint8_t id[32], w = ND_U8("which"), tt = ND_U8("type");
        type_t ty = (type_t) tt;
        uint64_t a = ND_U64("a");
        if (w == 0) {
            box_t x = l->on_type(ty, a, l->context);
            CHECK(is(&A, OUT_TYPE, &CTX->amounts, NULL, NULL, ty, a, 0, 0) && x == (box_t) A.r && O.n == 0, "the value goes to the totals under its kind, and a refusal is passed on");
        } else if (w == 1) {
            box_t x = l->on_token(ty, id, a, l->context);
            CHECK(O.n <= 1 && A.n <= 1 && (O.n == 0 || is(&O, O_TOKEN, OUT, id, NULL, a, 0, 0, 0)) && (A.n == 0 || is(&A, OUT_TOKEN, &CTX->amounts, id, NULL, ty, a, 0, 0)), "a token goes to the output record and to the totals");
            CHECK((x == ERGO_TX_SERIALIZER_BOX_RES_OK) == (O.n == 1 && A.n == 1 && O.r == 0x7F && A.r == 0x7F), "a token is accepted exactly if both accept it");
            REACH(x == ERGO_TX_SERIALIZER_BOX_RES_OK, "token accepted"); REACH(A.n && A.r != 0x7F, "token refused by the totals");
        } else {
            box_t x = l->on_finished(ty, l->context);
            CHECK(is(&O, O_DONE, OUT, NULL, NULL, 0, 0, 0, 0) && x == (box_t) O.r && A.n == 0, "the record learns that the output is complete");
        }
        REACH(w == 0, "type"); REACH(w == 2, "finished");
    } else REFUSED(sw);
    REACH(ok && !good(), "refused by the serializer"); REACH(!ok, "out of turn");
}
/* what follows a piece of an output */
#define PIECE_END()                                                                                                                   \
    if (ok && good() && (O.n == 0 || O.r == SW_OK)) {                                                                                   \
        bool fin = TX->state == ERGO_TX_SERIALIZER_FULL_STATE_FINISHED;                                                                 \
        CHECK(sw == SW_OK && on(), "the piece is accepted");                                                                            \
        CHECK(CTX->state == (fin ? ST(TX_FINISHED) : ST(OUTPUTS_STARTED)), "the transaction is finished exactly when its serialization is"); \
        CHECK(same() || IN(state) || IN(transaction.tx), "nothing else changes");                                                       \
        REACH(fin, "finished"); REACH(!fin, "goes on");                                                                                 \
    } else REFUSED(sw);                                                                                                               \
    REACH(ok && !good(), "refused by the serializer"); REACH(!ok, "out of turn")

void h_p2pk_chunk(void) {
    mk();
    mk_buf();
    buffer_t b0 = buf;
    STEP(stx_operation_p2pk_add_output_tree_chunk(CTX, &buf), s0 == ST(OUTPUTS_STARTED), TREE, &buf, b0.ptr, b0.offset, b0.size, 0, 0)
    if (ok && good()) CHECK(is(&O, O_CHUNK, OUT, b0.ptr + b0.offset, NULL, b0.size - b0.offset, S.r == ERGO_TX_SERIALIZER_FULL_RES_OK, 0, 0), "the recipient is built from exactly this chunk, and is complete exactly when the script is");
    else CHECK(O.n == 0, "a refused chunk does not reach the recipient");
    PIECE_END();
    REACH(O.n && O.r != SW_OK, "refused by the record");
}
void h_p2pk_fee(void) {
    mk();
    uint8_t net = CTX->network_id = ND_U8("net");
    before = BYTES[wb];
    STEP(stx_operation_p2pk_add_output_tree_fee(CTX), s0 == ST(OUTPUTS_STARTED), FEE, NULL, NULL, net == 0, 0, 0, 0)
    if (ok && good()) CHECK(is(&O, O_FEE, OUT, NULL, NULL, 0, 0, 0, 0), "the recipient is the miners fee");
    else CHECK(O.n == 0, "a refused tree does not reach the recipient");
    PIECE_END();
    REACH(O.n && O.r != SW_OK, "refused by the record");
}
void h_p2pk_change(void) {
    mk();
    static uint32_t path[MAX_BIP32_PATH];
    static uint8_t pk[PUBLIC_KEY_LEN];
    uint8_t n = ND_U8("n");
    STEP(stx_operation_p2pk_add_output_tree_change(CTX, path, n, pk), s0 == ST(OUTPUTS_STARTED), CHANGE, pk, NULL, 0, 0, 0, 0)
    if (ok && good()) CHECK(is(&O, O_BIP32, OUT, path, NULL, n, 0, 0, 0), "the recipient is the path whose key was streamed");
    else CHECK(O.n == 0, "a refused tree does not reach the recipient");
    PIECE_END();
    REACH(O.n && O.r != SW_OK, "refused by the record");
}
void h_p2pk_box_tokens(void) {
    mk();
    mk_buf();
    STEP(stx_operation_p2pk_add_output_tokens(CTX, &buf), s0 == ST(OUTPUTS_STARTED), BTOKENS, &buf, NULL, 0, 0, 0, 0)
    PIECE_END();
}
void h_p2pk_box_registers(void) {
    mk();
    mk_buf();
    STEP(stx_operation_p2pk_add_output_registers(CTX, &buf), s0 == ST(OUTPUTS_STARTED), REGS, &buf, NULL, 0, 0, 0, 0)
    PIECE_END();
}

/* ------------------------------------------------------------------ which outputs are shown */
static void mk_path(sign_transaction_bip32_path_t *p) {
    p->len = ND_U8("len");
    VP_ASSUME(p->len <= MAX_BIP32_PATH);
    for (unsigned i = 0; i < MAX_BIP32_PATH; i++) p->path[i] = ND_U32("path");
}
void h_p2pk_should_show(void) {
    mk();
    used = ND_U8("used");
    VP_ASSUME(used <= TOKEN_MAX_COUNT);
    mk_path(&CTX->bip32);
    OUT->state = ND_U8("output");
    mk_path(&OUT->bip32_path);
    mk_path(&CTX->transaction.last_approved_change);
    /* the signing path was checked when the attempt started (h_p2pk_init) */
    VP_ASSUME(spec_path_ok(CTX->bip32.path, CTX->bip32.len, BIP32_HARDENED(44), BIP32_HARDENED(BIP32_ERGO_COIN), BIP32_PATH_VALIDATE_ADDRESS_GE5));
    before = BYTES[wb];
    const sign_transaction_bip32_path_t o = OUT->bip32_path, l = CTX->transaction.last_approved_change, s = CTX->bip32;
    uint8_t type = OUT->state & 0x3F;
    bool complete = (OUT->state & 0xC0) == 0xC0;
    bool r = stx_operation_p2pk_should_show_output_confirm_screen(CTX);
    bool going = s0 == ST(OUTPUTS_STARTED) || s0 == ST(TX_FINISHED);
    bool fee = type == SIGN_TRANSACTION_OUTPUT_INFO_TYPE_MINERS_FEE && used == 0;
    bool own = type == SIGN_TRANSACTION_OUTPUT_INFO_TYPE_BIP32 && spec_path_ok(o.path, o.len, BIP32_HARDENED(44), BIP32_HARDENED(BIP32_ERGO_COIN), BIP32_PATH_VALIDATE_ADDRESS_E5);
    bool last = spec_path_eq(o.path, o.len, l.path, l.len);
    bool near = o.path[0] == s.path[0] && o.path[1] == s.path[1] && o.path[2] == s.path[2] && o.path[3] == s.path[3] && (uint64_t) o.path[4] < (uint64_t) s.path[4] + 20;
    CHECK(r == (going && complete && !fee && !(own && (last || near))), "an output is not shown exactly if it is a fee without tokens or own change next to the signing address or approved last");
    CHECK(same(), "asking changes nothing");
    REACH(going && complete && fee, "fee"); REACH(going && complete && own && last && !near, "approved last"); REACH(going && complete && own && near && !last, "near");
    REACH(r && own, "far"); REACH(r && type == SIGN_TRANSACTION_OUTPUT_INFO_TYPE_MINERS_FEE, "fee with tokens"); REACH(!complete, "incomplete"); REACH(r && type == SIGN_TRANSACTION_OUTPUT_INFO_TYPE_SCRIPT_HASH, "script");
}

/* ------------------------------------------------------------------ screens */
void h_p2pk_show_path(void) {
    mk();
    mk_path(&CTX->bip32);
    uint32_t app = ND_U32("app");
    bool known = ND_BOOL("known");
    sign_transaction_ctx_t *tx = app_sign_transaction_context();
    uint16_t sw = ui_stx_operation_p2pk_show_token_and_path(CTX, app, known, tx);
    CHECK(is(&K, U_PATH, CTX->bip32.path, CTX->ui_approve.bip32_path, K.p[2], CTX->bip32.len, MAX_BIP32_STRING_LEN, 0, 0), "the path of this attempt is shown");
    CHECK(K.r ? is(&U, U_APPROVE, &CTX->ui_approve.ui_approve, tx, NULL, 1, app, known, 0) && G_ux_flow_steps[0] == &PATH_STEP : U.n == 0, "the user is asked about this attempt and this application");
    CHECK((sw == SW_OK) == (K.r && U.r && D.n == 1 && D.r) && (sw == SW_OK || ERROR_SW(sw)), "success is reported exactly if the question is on the screen");
    REACH(sw == SW_OK, "shown"); REACH(D.n && !D.r, "not displayed"); REACH(U.n && !U.r, "no room"); REACH(!K.r, "no path");
    if (sw == SW_OK) {
        path_cb(path_ctx);
        CHECK(approvals == 1 && approved_ && approve_ctx == &CTX->ui_approve.ui_approve, "pressing on the path approves this attempt");
    }
}
void h_p2pk_show_output(void) {
    mk();
    CTX->network_id = ND_U8("net");
    uint8_t net = CTX->network_id;
    uint16_t sw = ui_stx_operation_p2pk_show_output_confirm_screen(CTX);
    bool going = s0 == ST(OUTPUTS_STARTED) || s0 == ST(TX_FINISHED);
    CHECK(U.n == (going ? 1 : 0) && (!going || is(&U, U_OUTPUT, &CTX->transaction.ui.ui, OUT, &CTX->transaction.last_approved_change, 0, net, 0, 0)), "the screens are those of this output");
    CHECK((sw == SW_OK) == (going && U.r && D.n == 1 && D.r) && (sw == SW_OK || ERROR_SW(sw)), "success is reported exactly if the question is on the screen");
    CHECK(going || gone(), "a question out of turn ends the attempt");
    REACH(sw == SW_OK, "shown"); REACH(going && U.r && !D.r, "not displayed"); REACH(going && !U.r, "no room"); REACH(!going, "out of turn");
}
void h_p2pk_confirm(void) {
    mk();
    mk_path(&CTX->bip32);
    CTX->network_id = ND_U8("net");
    for (int i = 0; i < 32; i++) CTX->schnorr_key[i] = nonce[i] = ND_U8("nonce");
    before = BYTES[wb];
    const sign_transaction_bip32_path_t s = CTX->bip32;
    uint16_t sw = ui_stx_operation_p2pk_show_confirm_screen(CTX);
    bool fin = s0 == ST(TX_FINISHED);
    CHECK(U.n == (fin ? 1 : 0) && (!fin || is(&U, U_TX, &CTX->ui_confirm, &CTX->amounts, NULL, 0, 1, 0, 0)), "only a finished transaction is put to the user, with its totals");
    CHECK((sw == SW_OK) == (fin && U.r && D.n == 1 && D.r) && (sw == SW_OK || ERROR_SW(sw)), "success is reported exactly if the question is on the screen");
    CHECK(K.n == 0 && F.n == 0 && G.sends == 0, "nothing is signed before the user answers");
    if (!fin) { CHECK(gone(), "a question out of turn ends the attempt"); REACH(true, "out of turn"); CASE_END; }
    CHECK(CTX->state == ST(FINALIZED), "nothing can be added to a transaction on the screen");
    CHECK(same() || IN(state) || in_(&CTX->transaction, sizeof(CTX->transaction)), "totals, hash and keys stay");
    REACH(sw == SW_OK, "shown"); REACH(U.r && !D.r, "not displayed"); REACH(!U.r, "no room");
    CHECK(show_cb != NULL && send_cb != NULL, "the screen knows what to sign");
    if (ND_BOOL("path screen")) {
        char title[20], text[70];
        uint8_t i = ND_U8("i");
        G.can_fail = ND_BOOL("fmt");
        uint16_t r = show_cb(i, title, sizeof title, text, sizeof text, cb_ctx);
        bool p = GD.paths == 1 && GD.path_dst == text && GD.path_len == s.len;
        for (unsigned k = 0; k < MAX_BIP32_PATH; k++) if (k < s.len && GD.path[k] != s.path[k]) p = false;
        CHECK(r == SW_OK ? i == 0 && p && G.fails == 0 : ERROR_SW(r), "the extra screen is the signing path, or an error");
        REACH(r == SW_OK, "path shown");
        CASE_END;
    }
    /* the user approves (stx_ui.c calls the callback then, and only then) */
    bool late = ND_BOOL("other state");
    if (late) {
        uint8_t x = ND_U8("state now");
        VP_ASSUME(x <= ST(ERROR));
        CTX->state = x;
    }
    bool final = CTX->state == ST(FINALIZED);
    before = BYTES[wb];
    seq = 0;
    send_cb(cb_ctx);
    CHECK(G.sends == 1, "the approval is answered once");
    CHECK(!GK.prod_live, "the private key is overwritten on every way out");
    if (!final) { CHECK(ERROR_SW(G.sw) && G.send_len == 0 && F.n == 0 && gone(), "no signature in any other state"); REACH(true, "no transaction"); CASE_END; }
    bool p = K.n == 1 && GK.path_len == s.len;
    for (unsigned k = 0; k < MAX_BIP32_PATH; k++) if (k < s.len && GK.path[k] != s.path[k]) p = false;
    CHECK(p, "the key is the one of the approved path");
    if (K.r == 0) CHECK(F.n == 1 && F.v[0] && F.v[1] && F.p[0] == &CTX->tx_hash, "the signature is made once, with this key and this nonce, over the hashed transaction");
    else CHECK(F.n == 0, "no signature without a key");
    bool done = F.n == 1 && F.r;
    if (done) CHECK(G.sw == SW_OK && G.send_len == ERGO_SIGNATURE_LEN && (G_k >= ERGO_SIGNATURE_LEN || G.send_at == sig_at), "the reply is the signature");
    else CHECK(ERROR_SW(G.sw) && G.send_len == 0 && gone(), "a failure is answered by an error and ends the attempt");
    CHECK(!IN(schnorr_key) || BYTES[wb] == 0, "the nonce is overwritten, it signs no second time");
    REACH(done && G_k == 55, "signed"); REACH(F.n && !F.r, "signing fails"); REACH(K.r != 0, "no key at the end");
}
