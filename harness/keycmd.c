/* Units: src/commands/extpubkey/, src/commands/deriveaddress/ (handlers, responses, screens), src/context.c,
 * src/helpers/cmd_macros.h.  Key derivation, address composition and the path screen are recorders: their
 * contracts are proved in harness/keys.c, ergo.c and dynflow.c. */
#include <string.h>
#include "vp_ghost.h"
#include "bip32_c.h"
#include "context.h"
#include "sw.h"
#include "ux.h"
#include "helpers/crypto.h"
#include "ergo/address.h"
#include "ui/ui_main.h"
#include "ui/ui_bip32_path.h"
#include "commands/extpubkey/epk_handler.h"
#include "commands/deriveaddress/da_handler.h"
#include "common/macros_ext.h"

#ifndef VP_YES
#define VP_YES 0
#endif
#ifndef VP_DISPLAY
#define VP_DISPLAY 0
#endif
#define BYTES ((uint8_t *) &G_app_context)
#define FROM offsetof(app_ctx_t, commands_ctx)
#define LEN MEMBER_SIZE(app_ctx_t, commands_ctx)
#define ERROR_SW(sw) ((sw) != SW_OK && ((sw) >> 12) >= 6 && ((sw) >> 8) != 0x61 && ((sw) >> 8) != 0x90)

static uint8_t D[255];
static buffer_t in;
static size_t n, wb;
static uint8_t before, k;
static bool in_(const void *p, size_t l) {
    size_t o = (size_t) ((const uint8_t *) p - BYTES);
    return wb >= o && wb < o + l;
}
static bool same(void) { return BYTES[wb] == before; }
static bool gone(void) { return app_current_command() == CMD_NONE && !app_is_ui_busy() && (wb < FROM || wb >= FROM + LEN || BYTES[wb] == 0); }
static bool is_text(const char *t, const char *want) {
    size_t i = 0;
    for (; want[i]; i++) if (t[i] != want[i]) return false;
    return t[i] == 0;
}
static uint64_t be(size_t at, unsigned len) {
    uint64_t v = 0;
    for (unsigned i = 0; i < len; i++) v = (v << 8) | D[at + i];
    return v;
}

/* ---- recorders ---- */
/* keys and addresses are written in one step: byte by byte into the union of command states is slow */
typedef struct { uint8_t b[PUBLIC_KEY_LEN]; } pk_t;
typedef struct { uint8_t b[CHAIN_CODE_LEN]; } chain_t;
typedef struct { uint8_t b[P2PK_ADDRESS_LEN]; } address_t;
static struct { uint8_t n, len; uint32_t path_k; pk_t pk; chain_t chain; bool chained, ok; } K;
uint16_t crypto_generate_public_key(const uint32_t *p, uint8_t len, uint8_t pk[static PUBLIC_KEY_LEN], uint8_t *chain) {
    K.n = vp_inc(K.n);
    K.len = len;
    if (k < 10 && k < len) K.path_k = p[k];
    for (int i = 0; i < PUBLIC_KEY_LEN; i++) K.pk.b[i] = ND_U8("pk");
    *(pk_t *) pk = K.pk;
    K.chained = chain != NULL;
    for (int i = 0; i < CHAIN_CODE_LEN; i++) K.chain.b[i] = ND_U8("chain");
    if (chain) *(chain_t *) chain = K.chain;
    K.ok = ND_BOOL("key ok");
    uint16_t err = ND_U16("key error");
    VP_ASSUME(err != 0);
    return K.ok ? 0 : err;
}
static struct { uint8_t n, net, at; bool ok; address_t a; } A;
bool ergo_address_from_pubkey(uint8_t net, const uint8_t pk[static PUBLIC_KEY_LEN], uint8_t a[static P2PK_ADDRESS_LEN]) {
    A.n = vp_inc(A.n);
    A.net = net;
    if (G_k < PUBLIC_KEY_LEN) A.at = pk[G_k];
    for (unsigned i = 0; i < P2PK_ADDRESS_LEN; i++) A.a.b[i] = ND_U8("address");
    *(address_t *) a = A.a;
    return A.ok = ND_BOOL("address ok");
}
static const ux_flow_step_t PATH;
static struct { uint8_t n, len; uint32_t path_k; bool ok, mine; } P;
const ux_flow_step_t *ui_bip32_path_screen(uint32_t *path, uint8_t len, const char *title, char *buffer, uint8_t buffer_len, ui_bip32_approve_callback cb, void *cb_context) {
    (void) cb_context;
    P.n = vp_inc(P.n);
    P.len = len;
    if (k < 10 && k < len) P.path_k = path[k];
    P.mine = is_text(title, "Path") && cb == NULL && buffer_len >= MAX_BIP32_STRING_LEN && (uint8_t *) buffer >= BYTES + FROM && (uint8_t *) buffer + buffer_len <= BYTES + FROM + LEN;
    P.ok = ND_BOOL("path ok");
    return P.ok ? &PATH : NULL;
}
/* wiping the whole state in one step, like the keys */
void stub_bzero(void *p, size_t size) {
    static const extended_public_key_ctx_t zero;
    CHECK(size <= LEN, "wiped region is the command's");
    if (size == sizeof zero) *(extended_public_key_ctx_t *) p = zero;
    else memset(p, 0, size);
}
/* ---- the screens, and what the user can press ---- */
static struct { uint8_t path, address, app, yes, no, total; const char *address_text, *app_text; const ux_flow_step_t *yes_step, *no_step; } S;
static void look(void) {
    CHECK(G.flows == 1 && G.flow_steps == G_ux_flow_steps && app_is_ui_busy(), "the question is on the screen and the application waits for the user");
    bool end = false;
    for (unsigned i = 0; i < MAX_NUMBER_OF_SCREENS; i++) {
        const ux_flow_step_t *x = G_ux_flow_steps[i];
        if (x == FLOW_LOOP) {
            end = G_ux_flow_steps[i + 1] == FLOW_END_STEP;
            break;
        }
        S.total++;
        if (x == &PATH) S.path++;
        else if (x->validate_flow) {
            const char *l = ((const ux_layout_pb_params_t *) x->params)->line1;
            if (is_text(l, "Approve")) {
                S.yes++;
                S.yes_step = x;
            } else if (is_text(l, "Reject")) {
                S.no++;
                S.no_step = x;
            }
        } else if (x->init == ux_layout_bnnn_paging_init) {
            const ux_layout_bnnn_paging_params_t *q = x->params;
            if (is_text(q->title, "Address")) {
                S.address++;
                S.address_text = q->text;
            }
        } else if (x->init == ux_layout_bn_init) {
            const ux_layout_bn_params_t *q = x->params;
            if (is_text(q->line1, "Application")) {
                S.app++;
                S.app_text = q->line2;
            }
        }
    }
    CHECK(end, "the flow ends behind its last screen");
    CHECK(S.yes == 1 && S.no == 1, "the user is offered to approve and to reject, once each");
}
static bool app_shown(uint32_t id) {
    if (S.app != 1) return false;
    bool t = S.app_text[0] == '0' && S.app_text[1] == 'x' && S.app_text[10] == 0;
    for (unsigned i = 0; i < 8; i++) if (S.app_text[2 + i] != "0123456789abcdef"[id >> (28 - 4 * i) & 15]) t = false;
    return t;
}
static bool busy, token;
static uint32_t app;
static int r;
static void mk(void) {
    vp_ghost_init();
    ND_BYTES("data", D);
    n = ND_U8("lc");
    in.ptr = D;
    in.size = n;
    in.offset = 0;
    k = ND_U8("k");
    VP_ASSUME(k < 32);
    wb = ND_SIZE("wb");
    VP_ASSUME(wb < sizeof(app_ctx_t));
    BYTES[wb] = ND_U8("app");
    busy = ND_BOOL("busy");
    token = ND_BOOL("token");
    app = ND_U32("app_id");
    G_app_context.is_ui_busy = busy;
    G_app_context.current_command = (command_e) ND_U8("cmd");
    G_app_context.connected_app_id = app;
    before = BYTES[wb];
}
static uint32_t id;
static bool valid;
static uint8_t len;
/* the part both commands share: [at] is where the path begins.  Returns whether there is a key. */
static bool request(unsigned at, int kind, command_e cmd) {
    len = D[at];
    bool parsed = n >= at + 1u && len >= 1 && len <= 10 && n == at + 1u + 4u * len + (token ? 4u : 0u);
    uint32_t p[10];
    for (unsigned i = 0; i < 10; i++) p[i] = (uint32_t) be(at + 1 + 4 * i, 4);
    valid = parsed && spec_path_ok(p, len, BIP32_HARDENED(44), BIP32_HARDENED(BIP32_ERGO_COIN), kind);
    CHECK(K.n == (valid ? 1 : 0), "a key is derived for a complete request with a valid path, and nothing else");
    if (valid) CHECK(K.len == len && (k >= len || k >= 10 || K.path_k == p[k]), "the key is the one of the requested path");
    id = parsed && token ? (uint32_t) be(at + 1 + 4 * len, 4) : 0;
    if (P.n) {
        CHECK(P.n == 1 && P.mine && P.len == len && (k >= len || k >= 10 || P.path_k == p[k]), "the path on the screen is the requested one");
        CHECK(valid && K.ok, "nothing is asked for a failed request");
    }
    REACH(!parsed, "malformed"); REACH(parsed && !valid, "bad path"); REACH(valid && !K.ok, "no key");
    (void) cmd;
    return valid && K.ok;
}

static uint8_t epk_at(size_t i) { return i == 0 ? (K.pk.b[64] & 1 ? 3 : 2) : i < 33 ? K.pk.b[i] : i < 65 ? K.chain.b[i - 33] : 0; }
static bool epk_reply(void) { return G.sends == 1 && G.sw == SW_OK && G.send_len == 65 && (G_k >= 65 || G.send_at == epk_at(G_k)); }
void h_epk(void) {
    mk();
    r = handler_get_extended_public_key(&in, token);
    CHECK(G.sends + (G.flows ? 1 : 0) == 1, "the command is answered exactly once, now or by the user");
    CHECK(G.sends ? r == G.send_ret : r == 0, "the result is that of the answer");
    CHECK(A.n == 0, "no address is derived");
    CHECK(app_connected_app_id() == app, "only the user connects an application");
    if (busy) {
        CHECK(G.sends == 1 && ERROR_SW(G.sw) && G.send_len == 0 && K.n == 0 && same(), "while the user decides a command changes nothing");
        REACH(true, "busy");
        CASE_END;
    }
    bool ok = request(0, BIP32_PATH_VALIDATE_ACCOUNT_GE3, CMD_GET_EXTENDED_PUBLIC_KEY);
    bool known = id != 0 && id == app;
    if (ok && known) {
        CHECK(K.chained && epk_reply(), "a connected application gets the key and chain code of this path");
        CHECK(gone(), "and nothing is left");
        REACH(len == 10, "known");
        CASE_END;
    }
    if (!ok || !P.ok) {
        CHECK(G.sends == 1 && ERROR_SW(G.sw) && G.send_len == 0 && gone(), "a failed request is answered by an error and leaves nothing");
        REACH(ok, "no path screen");
        CASE_END;
    }
    CHECK(G.sends == 0 && app_current_command() == CMD_GET_EXTENDED_PUBLIC_KEY, "the user answers");
    look();
    CHECK(P.n == 1 && S.path == 1, "the path is shown");
    CHECK(id ? app_shown(id) : S.app == 0, "an application is shown if it asks");
    before = BYTES[wb];
    G.flows = 0;
    if (VP_YES) {
        S.yes_step->validate_flow[0]->init(0);
        CHECK(K.chained && epk_reply(), "approval is answered with the key and chain code of this path");
        CHECK(app_connected_app_id() == id && gone(), "approval connects this application and nothing is left");
    } else {
        S.no_step->validate_flow[0]->init(0);
        CHECK(G.sends == 1 && G.sw == SW_DENY && G.send_len == 0 && gone() && app_connected_app_id() == app, "rejection is answered with a denial and leaves nothing");
    }
    CHECK(G.flows == 1, "the menu is back");
    CHECK(same() || in_(&G_app_context.commands_ctx, LEN) || in_(&G_app_context.current_command, sizeof G_app_context.current_command) || in_(&G_app_context.is_ui_busy, 1) || in_(&G_app_context.connected_app_id, 4), "nothing else changes");
    REACH(id != 0, "application"); REACH(id == 0, "no application");
}

static bool da_reply(void) { return G.sends == 1 && G.sw == SW_OK && G.send_len == P2PK_ADDRESS_LEN && (G_k >= P2PK_ADDRESS_LEN || G.send_at == A.a.b[G_k]); }
void h_da(void) {
    mk();
    bool display = VP_DISPLAY;
    r = handler_derive_address(&in, display, token);
    CHECK(G.sends + (G.flows ? 1 : 0) == 1, "the command is answered exactly once, now or by the user");
    CHECK(G.sends ? r == G.send_ret : r == 0, "the result is that of the answer");
    CHECK(app_connected_app_id() == app, "only the user connects an application");
    if (busy) {
        CHECK(G.sends == 1 && ERROR_SW(G.sw) && G.send_len == 0 && K.n == 0 && A.n == 0 && same(), "while the user decides a command changes nothing");
        REACH(true, "busy");
        CASE_END;
    }
    bool ok = request(1, BIP32_PATH_VALIDATE_ADDRESS_GE5, CMD_DERIVE_ADDRESS);
    CHECK(!K.n || !K.chained, "no chain code is derived");
    CHECK(A.n == (ok ? 1 : 0), "an address is composed from a derived key only");
    if (ok) CHECK(A.net == D[0] && (G_k >= PUBLIC_KEY_LEN || A.at == K.pk.b[G_k]), "the address is of this key on this network");
    bool known = id != 0 && id == app;
    ok = ok && A.ok;
    if (ok && known && !display) {
        CHECK(da_reply(), "a connected application gets the address of this path");
        CHECK(gone(), "and nothing is left");
        REACH_IF(VP_DISPLAY == 0, len == 10, "known");
        CASE_END;
    }
    if (!ok || !P.ok || (display && G.fails)) {
        CHECK(G.sends == 1 && ERROR_SW(G.sw) && G.send_len == 0 && gone(), "a failed request is answered by an error and leaves nothing");
        REACH(A.n && !A.ok, "no address"); REACH(ok && !P.ok, "no path screen"); REACH_IF(VP_DISPLAY == 1, ok && P.ok, "no text");
        CASE_END;
    }
    CHECK(G.sends == 0 && app_current_command() == CMD_DERIVE_ADDRESS, "the user answers");
    look();
    CHECK(P.n == 1 && S.path == 1, "the path is shown");
    CHECK(id ? app_shown(id) : S.app == 0, "an application is shown if it asks");
    CHECK(S.address == (display ? 1 : 0), "the address is shown if that is asked for");
    if (display) {
        CHECK(GD.b58s == 1 && GD.b58_len == P2PK_ADDRESS_LEN && GD.b58_dst == S.address_text && (G_k >= P2PK_ADDRESS_LEN || GD.b58_at == A.a.b[G_k]), "the shown text is this address in full");
        CHECK(S.address_text[50] == '9' && S.address_text[51] == 0, "to the end");
    }
    before = BYTES[wb];
    G.flows = 0;
    if (VP_YES) {
        S.yes_step->validate_flow[0]->init(0);
        CHECK(display ? G.sends == 1 && G.sw == SW_OK && G.send_len == 0 : da_reply(), "approval is answered with the address if it is to be sent, and without if it was to be shown");
        CHECK(app_connected_app_id() == id && gone(), "approval connects this application and nothing is left");
    } else {
        S.no_step->validate_flow[0]->init(0);
        CHECK(G.sends == 1 && G.sw == SW_DENY && G.send_len == 0 && gone() && app_connected_app_id() == app, "rejection is answered with a denial and leaves nothing");
    }
    CHECK(G.flows == 1, "the menu is back");
    CHECK(same() || in_(&G_app_context.commands_ctx, LEN) || in_(&G_app_context.current_command, sizeof G_app_context.current_command) || in_(&G_app_context.is_ui_busy, 1) || in_(&G_app_context.connected_app_id, 4), "nothing else changes");
    REACH(id != 0, "application"); REACH(id == 0, "no application");
}
