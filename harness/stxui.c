/* Units: src/commands/signtx/stx_ui.c, src/ui/*.c, src/context.c
 * The pages of a flow (ui_dynamic_flow.c) and the address and path text are recorders: see their own units. */
#include <string.h>
#include "vp_ghost.h"
#include "context.h"
#include "sw.h"
#include "ux.h"
#include "ui/ui_main.h"
#include "ui/ui_dynamic_flow.h"
#include "commands/signtx/stx_ui.h"
#include "ergo/address.h"
#include "common/macros_ext.h"

#define TXC (app_sign_transaction_context())
#define CTX (&TXC->p2pk)
#define BYTES ((uint8_t *) &G_app_context)
#define FROM offsetof(app_ctx_t, commands_ctx)
#define ERROR_SW(sw) ((sw) != SW_OK && ((sw) >> 12) >= 6 && ((sw) >> 8) != 0x61 && ((sw) >> 8) != 0x90)

static size_t wb;
static uint8_t before;
static bool in_(const void *p, size_t n) {
    size_t o = (size_t) ((const uint8_t *) p - BYTES);
    return wb >= o && wb < o + n;
}
static void mk(void) {
    vp_ghost_init();
    wb = ND_SIZE("wb");
    VP_ASSUME(wb < sizeof(app_ctx_t));
    BYTES[wb] = ND_U8("app");
    G_app_context.current_command = CMD_SIGN_TRANSACTION;
    G_app_context.is_ui_busy = false;
    before = BYTES[wb];
}
static bool same(void) { return BYTES[wb] == before; }
static bool gone(void) {
    return app_current_command() == CMD_NONE && !app_is_ui_busy() && (wb < FROM || wb >= FROM + MEMBER_SIZE(app_ctx_t, commands_ctx) || BYTES[wb] == 0);
}
static bool is_text(const char *t, const char *want) {
    size_t i = 0;
    for (; want[i]; i++) if (t[i] != want[i]) return false;
    return t[i] == 0;
}

/* the pages of the flow */
static const ux_flow_step_t PAGE;
static struct { uint8_t n, count; bool ok; char *title, *text; ui_dynamic_flow_show_screen_cb show; void *ctx; } P;
bool ui_add_dynamic_flow_screens(uint8_t *screen, uint8_t count, char *title, char *text, ui_dynamic_flow_show_screen_cb show, void *ctx) {
    P.n = vp_inc(P.n);
    P.count = count;
    P.title = title;
    P.text = text;
    P.show = show;
    P.ctx = ctx;
    P.ok = count > 0 && count < 255 && MAX_NUMBER_OF_SCREENS - *screen >= 3;
    if (P.ok) for (int i = 0; i < 3; i++) G_ux_flow_steps[(*screen)++] = &PAGE;
    return P.ok;
}
/* addresses */
static struct { uint8_t n, kind, net, at, raw; bool ok; } AD;
static bool address(uint8_t kind, uint8_t net, const uint8_t *k, unsigned kl, uint8_t *a, unsigned al) {
    AD.n = vp_inc(AD.n);
    AD.kind = kind;
    AD.net = net;
    if (G_k < kl) AD.at = k[G_k];
    for (unsigned i = 0; i < al; i++) {
        a[i] = ND_U8("address");
        if (G_k == i) AD.raw = a[i];
    }
    return AD.ok = ND_BOOL("address ok");
}
bool ergo_address_from_compressed_pubkey(uint8_t net, const uint8_t k[static COMPRESSED_PUBLIC_KEY_LEN], uint8_t a[static P2PK_ADDRESS_LEN]) { return address(1, net, k, COMPRESSED_PUBLIC_KEY_LEN, a, P2PK_ADDRESS_LEN); }
bool ergo_address_from_script_hash(uint8_t net, const uint8_t h[static 32], uint8_t a[static P2SH_ADDRESS_LEN]) { return address(2, net, h, 32, a, P2SH_ADDRESS_LEN); }

/* what the user can press: the buttons that are on the screen, found by their label */
static void press(const char *label) {
    const ux_flow_step_t *s = NULL;
    unsigned n = 0;
    for (unsigned i = 0; i < MAX_NUMBER_OF_SCREENS; i++) {
        const ux_flow_step_t *x = G_ux_flow_steps[i];
        if (x == FLOW_LOOP) break;
        if (x == &PAGE || x->validate_flow == NULL) continue;
        if (is_text(((const ux_layout_pb_params_t *) x->params)->line1, label)) {
            s = x;
            n++;
        }
    }
    CHECK(n == 1, "the user is offered to approve and to reject, once each");
    s->validate_flow[0]->init(0);
}
static unsigned at_, len_;
static void ends(uint8_t screen) {
    G.flows = 0;
    bool r = ui_stx_display_screens(screen);
    CHECK(r && G.flows == 1 && G.flow_steps == G_ux_flow_steps && app_is_ui_busy(), "the question is on the screen and the application waits for the user");
    CHECK(screen + 1 < MAX_NUMBER_OF_SCREENS + 1 && G_ux_flow_steps[screen] == FLOW_LOOP && G_ux_flow_steps[screen + 1] == FLOW_END_STEP, "the flow ends behind its last screen");
}

/* amounts and tables are byte objects: see DESIGN.md */
static uint8_t A_mem[sizeof(sign_transaction_amounts_ctx_t)] __attribute__((aligned(8)));
static uint8_t T_mem[sizeof(token_table_t)] __attribute__((aligned(8)));
#define AM ((sign_transaction_amounts_ctx_t *) A_mem)
#define HEX(x) ("0123456789ABCDEF"[(x) & 15])
/* the text shows the two ends of the id, or all of it */
static uint8_t p_;
static char id_char(const uint8_t *id, unsigned p) {
    unsigned d = p < 26 ? p : p + 9;
    return p < 26 || (p > 28 && p < 55) ? HEX(id[d / 2] >> (d % 2 ? 0 : 4)) : p == 55 ? 0 : '.';
}
static bool is_number(const char *t, const char *prefix, const char *suffix) {
    size_t n = 0;
    for (; prefix[n]; n++) if (t[n] != prefix[n]) return false;
    for (unsigned i = 0; i < 21; i++) if (i < GD.num_len && t[n + i] != '7') return false;
    return is_text(t + n + GD.num_len, suffix);
}
static bool is_title(const char *t, unsigned k, const char *suffix) {
    const char *h = "Token [";
    for (int i = 0; i < 7; i++) if (t[i] != h[i]) return false;
    t += 7;
    if (k >= 10 && *t++ != (char) ('0' + k / 10)) return false;
    if (*t++ != (char) ('0' + k % 10)) return false;
    return *t == ']' && is_text(t + 1, suffix);
}

/* ------------------------------------------------------------------ transaction */
static struct { uint8_t n, screen; const void *title, *text, *ctx; size_t tl, xl; uint16_t r; } OP;
static uint16_t op_cb(uint8_t screen, char *title, size_t tl, char *text, size_t xl, void *ctx) {
    OP.n = vp_inc(OP.n);
    OP.screen = screen;
    OP.title = title;
    OP.text = text;
    OP.tl = tl;
    OP.xl = xl;
    OP.ctx = ctx;
    return OP.r = ND_U16("op");
}
static struct { uint8_t n; bool intact; const void *ctx; } RE;
static void resp_cb(void *ctx) {
    RE.n = vp_inc(RE.n);
    RE.ctx = ctx;
    RE.intact = same() && app_current_command() == CMD_SIGN_TRANSACTION && G.sends == 0;
}
static uint8_t screen;

static sign_transaction_ui_sign_confirm_ctx_t cf;
void h_ui_tx(void) {
    mk();
    ND_BYTES("A", A_mem);
    unsigned nz = 0;
    for (unsigned i = 0; i < TOKEN_MAX_COUNT; i++) nz += AM->tokens[i] != 0;
    uint8_t ops = ND_U8("ops");
    VP_ASSUME(ops <= 3);
    screen = 0;
    bool r = ui_stx_add_transaction_screens(&cf, &screen, AM, ops, op_cb, resp_cb, CTX);
    CHECK(r && P.n == 1 && P.ok, "every transaction has its screens");
    CHECK(P.count == ops + 2 + 2 * nz, "there is a screen for the value, one for the fee and two for every token with a nonzero balance");
    ends(screen);
    uint8_t s = ND_U8("s");
    VP_ASSUME(s < P.count);
    char title[20], text[70];
    for (int i = 0; i < 20; i++) title[i] = 'x';
    for (int i = 0; i < 70; i++) text[i] = 'x';
    G.fails = 0;
    GD.hexs = GD.u64s = GD.fpus = 0;
    if (VP_S == 0) {
        VP_ASSUME(s < ops);
        uint16_t sw = P.show(s, title, text, P.ctx);
        CHECK(OP.n == 1 && OP.screen == s && OP.title == title && OP.text == text && OP.tl <= 20 && OP.xl <= 70 && OP.ctx == CTX && OP.r == sw, "the first screens are those of the operation");
        REACH_IF(VP_S == 0, sw == SW_OK, "operation");
    } else if (VP_S == 1) {
        VP_ASSUME(s == ops || s == ops + 1);
        uint16_t sw = P.show(s, title, text, P.ctx);
        bool fee = s == ops + 1;
        CHECK(is_text(title, fee ? "Transaction Fee" : "Transaction Amount"), "the screen says what it shows");
        CHECK(GD.fpus == 1 && GD.fpu == (fee ? AM->fee : AM->value) && GD.fpu_dec == 9, "the exact total is formatted, in nanoergs");
        CHECK(sw == SW_OK ? is_number(text, "", " ERG") && G.fails == 0 : ERROR_SW(sw) && G.fails == 1, "the text is this amount, or an error is reported");
        REACH_IF(VP_S == 1, sw == SW_OK && fee, "fee"); REACH_IF(VP_S == 1, sw == SW_OK && !fee, "value"); REACH_IF(VP_S == 1, sw != SW_OK, "failed");
    } else {
        VP_ASSUME(s >= ops + 2);
        unsigned k = (s - ops - 2) / 2, t = 0, rank = 0;
        bool amount = (s - ops - 2) % 2;
        VP_ASSUME(amount == (VP_S == 3));
        for (unsigned i = 0; i < TOKEN_MAX_COUNT; i++)
            if (AM->tokens[i] != 0) {
                if (rank == k) t = i;
                rank++;
            }
        int64_t v = AM->tokens[t];
        uint16_t sw = P.show(s, title, text, P.ctx);
        CHECK(sw == SW_OK, "every token has its screen");
        CHECK(is_title(title, k + 1, amount ? " Value" : ""), "the screen says which token it shows");
        if (amount) {
            CHECK(GD.u64s == 1 && GD.u64 == (v < 0 ? (uint64_t) 0 - (uint64_t) v : (uint64_t) v), "the exact amount is formatted");
            CHECK(is_number(text, v < 0 ? "Minting: " : "Burning: ", ""), "the text is the direction and this amount");
        } else {
            p_ = ND_U8("p");
            VP_ASSUME(p_ <= 55);
            const uint8_t *row = A_mem + offsetof(sign_transaction_amounts_ctx_t, tokens_table) + offsetof(token_table_t, tokens) + 32 * t;
            CHECK(text[p_] == id_char(row, p_), "the text is this token's id");
        }
        REACH_IF(VP_S >= 2, k == 19, "last token"); REACH_IF(VP_S == 3, v < 0, "minting"); REACH_IF(VP_S == 3, v > 0, "burning");
    }
}
void h_ui_tx_answer(void) {
    mk();
    for (unsigned i = 0; i < TOKEN_MAX_COUNT; i++) CTX->amounts.tokens[i] = ND_I64("total");
    screen = 0;
    bool r = ui_stx_add_transaction_screens(&CTX->ui_confirm, &screen, &CTX->amounts, 1, op_cb, resp_cb, CTX);
    CHECK(r, "every transaction has its screens");
    ends(screen);
    CHECK(RE.n == 0 && G.sends == 0, "nothing happens before the user answers");
    CHECK(!in_(&CTX->amounts, sizeof CTX->amounts) && !in_(&CTX->tx_hash, sizeof CTX->tx_hash) && !in_(&CTX->bip32, sizeof CTX->bip32) && !in_(CTX->schnorr_key, 32) || same() || in_(CTX->amounts.tokens, sizeof CTX->amounts.tokens), "putting the question changes nothing about the transaction");
    before = BYTES[wb];
    G.flows = 0;
    bool busy_byte = in_(&G_app_context.is_ui_busy, 1);
    if (busy_byte) before = 0;
    if (VP_YES) {
        press("Approve");
        CHECK(RE.n == 1 && RE.ctx == CTX, "approval releases the answer of this operation, once");
        CHECK(RE.intact, "while the attempt is as it was shown");
        CHECK(G.sends == 0, "and nothing else is sent");
    } else {
        press("Reject");
        CHECK(RE.n == 0 && G.sends == 1 && G.sw == SW_DENY && G.send_len == 0, "rejection is answered with a denial and nothing else");
    }
    CHECK(gone(), "the attempt is over");
    CHECK(G.flows == 1, "the menu is back");
    REACH(true, "answered");
}

/* ------------------------------------------------------------------ one output */
#define TYPE(t) SIGN_TRANSACTION_OUTPUT_INFO_TYPE_##t
static sign_transaction_output_info_ctx_t o;
static sign_transaction_ui_output_confirm_ctx_t ui;
static sign_transaction_bip32_path_t last;
void h_ui_output(void) {
    mk();
    ND_BYTES("T", T_mem);
    o.tokens_table = (const token_table_t *) T_mem;
    o.value = ND_U64("value");
    unsigned used = 0;
    for (unsigned i = 0; i < TOKEN_MAX_COUNT; i++) {
        o.tokens[i] = ND_U64("amount");
        used += o.tokens[i] != 0;
    }
    uint8_t type = ND_U8("type");
    VP_ASSUME(type <= TYPE(MINERS_FEE));
    bool set = ND_BOOL("set"), done = ND_BOOL("done");
    o.state = (uint8_t) (type | (set ? 0x40 : 0) | (done ? 0x80 : 0));
    if (type == TYPE(BIP32)) {
        o.bip32_path.len = ND_U8("len");
        VP_ASSUME(o.bip32_path.len <= MAX_BIP32_PATH);
        for (unsigned i = 0; i < MAX_BIP32_PATH; i++) o.bip32_path.path[i] = ND_U32("path");
    } else if (type == TYPE(ADDRESS)) {
        ND_BYTES("key", o.public_key);
    } else {
        ND_BYTES("hash", o.tree_hash);
    }
    bool own = type == TYPE(BIP32);
    uint8_t net = ND_U8("net");
    last.len = ND_U8("last");
    last.path[0] = ND_U32("last0");
    screen = 0;
    bool r = ui_stx_add_output_screens(&ui, &screen, &o, &last, net);
    CHECK(r && P.n == 1 && P.ok, "every output has its screens");
    CHECK(P.count == (own ? 1 : 2 + 2 * used), "there is a screen for the recipient, one for the value and two for every token, only one for an own path");
    CHECK(last.len == 0 && last.path[0] == 0, "asking forgets the output approved last");
    ends(screen);
    uint8_t s = ND_U8("s");
    VP_ASSUME(s < P.count);
    char title[20], text[70];
    for (int i = 0; i < 20; i++) title[i] = 'x';
    for (int i = 0; i < 70; i++) text[i] = 'x';
    G.fails = 0;
    GD.hexs = GD.u64s = GD.fpus = GD.b58s = GD.paths = 0;
    if (VP_S == 0) {
        VP_ASSUME(s == 0);
        uint16_t sw = P.show(s, title, text, P.ctx);
        if (sw != SW_OK) {
            CHECK(ERROR_SW(sw) && (!set || !done || type == TYPE(UNKNOWN) || G.fails == 1 || (AD.n == 1 && !AD.ok) || (own && (o.bip32_path.len == 0 || o.bip32_path.len > 10))), "a recipient that cannot be shown is an error");
            REACH_IF(VP_S == 0, !set, "no recipient"); REACH_IF(VP_S == 0, AD.n && !AD.ok, "no address"); REACH_IF(VP_S == 0, G.fails, "no text");
        } else {
            CHECK(set && done && G.fails == 0, "the recipient of a complete output is shown");
            if (own) {
                bool p = GD.paths == 1 && GD.path_dst == text && GD.path_len == o.bip32_path.len;
                for (unsigned i = 0; i < MAX_BIP32_PATH; i++) if (i < GD.path_len && GD.path[i] != o.bip32_path.path[i]) p = false;
                CHECK(p && is_text(title, "Change"), "an own output is shown as its path");
            } else if (type == TYPE(MINERS_FEE)) {
                CHECK(is_text(title, "Fee") && is_text(text, "Miners Fee"), "the fee is shown as the fee");
            } else {
                bool pk = type == TYPE(ADDRESS);
                CHECK(is_text(title, pk ? "Address" : "Script Hash"), "the screen says what it shows");
                CHECK(AD.n == 1 && AD.ok && AD.net == net && AD.kind == (pk ? 1 : 2), "the recipient's address on this network is shown");
                if (G_k < (pk ? 33 : 32)) CHECK(AD.at == (pk ? o.public_key[G_k] : o.tree_hash[G_k]), "the address is that of the recipient");
                CHECK(GD.b58s == 1 && GD.b58_len == (pk ? P2PK_ADDRESS_LEN : P2SH_ADDRESS_LEN) && GD.b58_dst == text, "the whole address is shown");
                if (G_k < (pk ? P2PK_ADDRESS_LEN : P2SH_ADDRESS_LEN)) CHECK(GD.b58_at == AD.raw, "the shown address is the computed one");
                CHECK(text[pk ? 50 : 59] == '9' && text[pk ? 51 : 60] == 0, "to the end");
            }
            REACH_IF(VP_S == 0, own, "own"); REACH_IF(VP_S == 0, type == TYPE(MINERS_FEE), "fee"); REACH_IF(VP_S == 0, type == TYPE(ADDRESS), "address"); REACH_IF(VP_S == 0, type == TYPE(SCRIPT_HASH), "script hash"); REACH_IF(VP_S == 0, type == TYPE(SCRIPT), "script");
        }
    } else if (VP_S == 1) {
        VP_ASSUME(s == 1);
        uint16_t sw = P.show(s, title, text, P.ctx);
        CHECK(is_text(title, "Output Value") && GD.fpus == 1 && GD.fpu == o.value && GD.fpu_dec == 9, "the exact value is formatted, in nanoergs");
        CHECK(sw == SW_OK ? is_number(text, "", " ERG") && G.fails == 0 : ERROR_SW(sw) && G.fails == 1, "the text is this value, or an error is reported");
        REACH_IF(VP_S == 1, sw == SW_OK, "value"); REACH_IF(VP_S == 1, sw != SW_OK, "failed");
    } else {
        VP_ASSUME(s >= 2);
        unsigned k = (s - 2) / 2, t = 0, rank = 0;
        bool amount = s % 2;
        VP_ASSUME(amount == (VP_S == 3));
        for (unsigned i = 0; i < TOKEN_MAX_COUNT; i++)
            if (o.tokens[i] != 0) {
                if (rank == k) t = i;
                rank++;
            }
        uint16_t sw = P.show(s, title, text, P.ctx);
        CHECK(sw == SW_OK, "every token has its screen");
        CHECK(is_title(title, k + 1, amount ? " Value" : ""), "the screen says which token it shows");
        if (amount) {
            CHECK(GD.u64s == 1 && GD.u64 == o.tokens[t] && is_number(text, "", ""), "the text is the exact amount");
        } else {
            p_ = ND_U8("p");
            VP_ASSUME(p_ <= 55);
            CHECK(text[p_] == id_char(T_mem + offsetof(token_table_t, tokens) + 32 * t, p_), "the text is this token's id");
        }
        REACH_IF(VP_S >= 2, k == 19, "last token");
    }
}
/* the output, its screens and the path approved last are objects of their own here: nothing else of the
 * application state may change at all */
void h_ui_output_answer(void) {
    mk();
    uint8_t type = ND_U8("type"), k = ND_U8("k");
    VP_ASSUME(type >= TYPE(BIP32) && type <= TYPE(MINERS_FEE) && k < TOKEN_MAX_COUNT);
    o.tokens_table = (const token_table_t *) T_mem;
    o.value = ND_U64("value");
    for (unsigned i = 0; i < TOKEN_MAX_COUNT; i++) o.tokens[i] = ND_U64("amount");
    o.state = (uint8_t) (type | 0xC0);
    o.bip32_path.len = ND_U8("len");
    VP_ASSUME(o.bip32_path.len <= MAX_BIP32_PATH);
    for (unsigned i = 0; i < MAX_BIP32_PATH; i++) {
        o.bip32_path.path[i] = ND_U32("path");
        last.path[i] = ND_U32("last");
    }
    last.len = ND_U8("last");
    const sign_transaction_output_info_ctx_t o0 = o;
    screen = 0;
    bool r = ui_stx_add_output_screens(&ui, &screen, &o, &last, ND_U8("net"));
    CHECK(r, "every output has its screens");
    ends(screen);
    CHECK(G.sends == 0, "nothing is answered before the user");
    CHECK(same() || in_(&G_app_context.is_ui_busy, 1), "putting the question changes nothing about the transaction");
    before = BYTES[wb];
    G.flows = 0;
    if (VP_YES) {
        press("Approve");
        CHECK(G.sends == 1 && G.sw == SW_OK && G.send_len == 0, "approval is answered with success");
        CHECK(app_current_command() == CMD_SIGN_TRANSACTION && !app_is_ui_busy(), "the transaction goes on");
        bool own = type == TYPE(BIP32), eq = last.len == (own ? o0.bip32_path.len : 0);
        for (unsigned i = 0; i < MAX_BIP32_PATH; i++) if (last.path[i] != (own ? o0.bip32_path.path[i] : 0)) eq = false;
        CHECK(eq, "the own output approved last is this one, if it is one");
        CHECK(same() || in_(&G_app_context.is_ui_busy, 1), "nothing else changes");
        CHECK(o.value == o0.value && o.state == o0.state && o.tokens[k] == o0.tokens[k] && o.tokens_table == o0.tokens_table, "nor does the output");
        REACH_IF(VP_YES, own, "own"); REACH_IF(VP_YES, !own, "other");
    } else {
        press("Reject");
        CHECK(G.sends == 1 && G.sw == SW_DENY && G.send_len == 0 && gone(), "rejection is answered with a denial and ends the attempt");
        CHECK(last.len == 0 && last.path[0] == 0, "a rejected output is not remembered");
        REACH_IF(not VP_YES, true, "rejected");
    }
    CHECK(G.flows == 1, "the menu is back");
}

/* ------------------------------------------------------------------ the operation */
void h_ui_operation(void) {
    mk();
    uint32_t app = ND_U32("app");
    bool known = VP_KNOWN;
    sign_transaction_ui_aprove_ctx_t *c = &CTX->ui_approve.ui_approve;
    uint8_t session = TXC->session = ND_U8("session");
    TXC->state = SIGN_TRANSACTION_STATE_INITIALIZED;
    before = BYTES[wb];
    screen = 1;
    G_ux_flow_steps[0] = &PAGE;
    bool r = ui_stx_add_operation_approve_screens(c, &screen, app, known, TXC);
    CHECK(r && screen == (known ? 3 : 4), "the question has its screens");
    ends(screen);
    CHECK(G.sends == 0 && TXC->state == SIGN_TRANSACTION_STATE_INITIALIZED, "nothing is answered before the user");
    CHECK(same() || in_(c, sizeof *c) || in_(&G_app_context.is_ui_busy, 1), "putting the question changes nothing about the attempt");
    if (!known) {
        const ux_layout_bn_params_t *bn = G_ux_flow_steps[1]->params;
        bool t = bn->line2[0] == '0' && bn->line2[1] == 'x' && bn->line2[10] == 0;
        for (unsigned i = 0; i < 8; i++) if (bn->line2[2 + i] != "0123456789abcdef"[app >> (28 - 4 * i) & 15]) t = false;
        CHECK(t && is_text(bn->line1, "Application"), "an unknown application is shown");
    }
    before = BYTES[wb];
    G.flows = 0;
    if (VP_YES) {
        if (VP_YES == 1) press("Approve");
        else ui_stx_operation_approve_reject(true, c);
        CHECK(app_connected_app_id() == app && TXC->state == SIGN_TRANSACTION_STATE_APPROVED, "approval connects this application and lets this attempt begin");
        CHECK(G.sends == 1 && G.sw == SW_OK && G.send_len == 1 && (G_k > 0 || G.send_at == session), "the reply is the session of this attempt");
        CHECK(app_current_command() == CMD_SIGN_TRANSACTION && !app_is_ui_busy(), "the attempt goes on");
        CHECK(same() || in_(&TXC->state, sizeof TXC->state) || in_(&G_app_context.is_ui_busy, 1) || in_(&G_app_context.connected_app_id, 4), "nothing else changes");
    } else {
        press("Reject");
        CHECK(G.sends == 1 && G.sw == SW_DENY && G.send_len == 0 && gone(), "rejection is answered with a denial and ends the attempt");
        CHECK(same() || wb >= offsetof(app_ctx_t, current_command), "the connected application stays");
    }
    CHECK(G.flows == 1, "the menu is back");
    REACH(true, "answered");
}
