/* Units: src/commands/signtx/stx_handler.c, src/helpers/input_frame.c, src/context.c, src/helpers/cmd_macros.h
 * The operation (stx_op_p2pk.c) is not linked: it is the recorders below, which end the attempt when they
 * fail, as proved in harness/p2pk.c. */
#include <string.h>
#include "vp_ghost.h"
#include "bip32_c.h"
#include "context.h"
#include "sw.h"
#include "commands/signtx/stx_handler.h"
#include "helpers/crypto.h"

#ifndef VP_SUB
#define VP_SUB 0
#endif
#define TXC app_sign_transaction_context()
#define OP (&TXC->p2pk)
#define BYTES ((uint8_t *) &G_app_context)
#define FROM offsetof(app_ctx_t, commands_ctx)
#define LEN MEMBER_SIZE(app_ctx_t, commands_ctx)
#define ERROR_SW(sw) ((sw) != SW_OK && ((sw) >> 12) >= 6 && ((sw) >> 8) != 0x61 && ((sw) >> 8) != 0x90)
typedef sign_transaction_operation_p2pk_ctx_t ctx_t;

static uint8_t D[255];
static buffer_t in;
static size_t n;       /* bytes received */
static size_t wb;      /* watched byte of the application state */
static uint8_t before;
static uint8_t k;      /* watched byte of an id, or component of a path */
static bool same(void) { return BYTES[wb] == before; }
static bool gone(void) { return app_current_command() == CMD_NONE && !app_is_ui_busy() && (wb < FROM || wb >= FROM + LEN || BYTES[wb] == 0); }

/* ---- recorders ---- */
static struct {
    uint8_t n, seq;           /* steps made */
    uint16_t r;               /* answer of the last step */
    bool ok;                  /* every step so far succeeded */
    /* init */
    uint8_t inits, path_len, net;
    uint32_t path_k;
    bool clean;
    /* start */
    uint16_t i, d, o;
    uint8_t t;
    /* input */
    uint8_t inputs, id_at, frames;
    uint64_t value;
    uint32_t ext;
    uint8_t in_tokens, tid_at, index;
    const uint8_t *tok_ptr;
    size_t tok_len;
    /* output */
    uint32_t tree, height, regs;
    /* anything with a buffer */
    const buffer_t *buf;
    const uint8_t *ptr;
    size_t size, offset;
    /* change */
    uint8_t pk_at;
    int op;
} R;
static struct { uint8_t path, out, confirm, asked; uint16_t r; uint32_t app; bool known, show; const void *tx; } U;
static struct { uint8_t n; uint32_t path_k; uint8_t len; uint16_t r; uint8_t at; } P;
enum { INIT = 1, START, TOKENS, INPUT, IN_TOKENS, EXT, DATA, OUTPUT, CHUNK, FEE, CHANGE, O_TOKENS, O_REGS };
static uint16_t sw_(void) {
    uint16_t r = ND_BOOL("step_ok") ? SW_OK : ND_U16("step_sw");
    VP_ASSUME(r == SW_OK || ERROR_SW(r));
    return r;
}
static uint16_t step(ctx_t *c, int op, buffer_t *b) {
    CHECK(c == OP, "the step belongs to the attempt in progress");
    CHECK(R.n == 0 || R.ok, "nothing follows a failed step");
    R.n = vp_inc(R.n);
    R.op = op;
    if (b) {
        R.buf = b;
        R.ptr = b->ptr;
        R.size = b->size;
        R.offset = b->offset;
    }
    R.r = sw_();
    R.ok = R.r == SW_OK;
    if (!R.ok && op != INIT) app_set_current_command(CMD_NONE);
    return R.r;
}
uint16_t stx_operation_p2pk_init(ctx_t *c, const uint32_t *p, uint8_t len, uint8_t net) {
    R.inits = vp_inc(R.inits);
    R.path_len = len;
    R.net = net;
    if (k < 10 && k < len) R.path_k = p[k];
    R.clean = wb < FROM || wb >= FROM + LEN || BYTES[wb] == 0 || (wb >= (size_t) ((uint8_t *) &c->bip32 - BYTES) && wb < (size_t) ((uint8_t *) &c->bip32 - BYTES) + sizeof c->bip32);
    return step(c, INIT, NULL);
}
uint16_t stx_operation_p2pk_start_tx(ctx_t *c, uint16_t i, uint16_t d, uint16_t o, uint8_t t) {
    R.i = i;
    R.d = d;
    R.o = o;
    R.t = t;
    return step(c, START, NULL);
}
uint16_t stx_operation_p2pk_add_tokens(ctx_t *c, buffer_t *b) { return step(c, TOKENS, b); }
uint16_t stx_operation_p2pk_add_input(ctx_t *c, const uint8_t id[static ERGO_ID_LEN], uint64_t v, uint8_t f, uint32_t e) {
    R.inputs = vp_inc(R.inputs);
    R.id_at = id[k];
    R.value = v;
    R.frames = f;
    R.ext = e;
    return step(c, INPUT, NULL);
}
uint16_t stx_operation_p2pk_add_input_tokens(ctx_t *c, const uint8_t id[static ERGO_ID_LEN], uint8_t f, buffer_t *b) {
    R.in_tokens = vp_inc(R.in_tokens);
    R.tid_at = id[k];
    R.index = f;
    R.tok_ptr = b->ptr + b->offset;
    R.tok_len = b->size - b->offset;
    return step(c, IN_TOKENS, NULL);
}
uint16_t stx_operation_p2pk_add_input_context_extension(ctx_t *c, buffer_t *b) { return step(c, EXT, b); }
uint16_t stx_operation_p2pk_add_data_inputs(ctx_t *c, buffer_t *b) { return step(c, DATA, b); }
uint16_t stx_operation_p2pk_add_output(ctx_t *c, uint64_t v, uint32_t t, uint32_t h, uint8_t nt, uint32_t r) {
    R.value = v;
    R.tree = t;
    R.height = h;
    R.t = nt;
    R.regs = r;
    return step(c, OUTPUT, NULL);
}
uint16_t stx_operation_p2pk_add_output_tree_chunk(ctx_t *c, buffer_t *b) { return step(c, CHUNK, b); }
uint16_t stx_operation_p2pk_add_output_tree_fee(ctx_t *c) { return step(c, FEE, NULL); }
uint16_t stx_operation_p2pk_add_output_tree_change(ctx_t *c, const uint32_t p[static MAX_BIP32_PATH], uint8_t len, const uint8_t pk[static PUBLIC_KEY_LEN]) {
    R.path_len = len;
    if (k < 10 && k < len) R.path_k = p[k];
    if (G_k < PUBLIC_KEY_LEN) R.pk_at = pk[G_k];
    return step(c, CHANGE, NULL);
}
uint16_t stx_operation_p2pk_add_output_tokens(ctx_t *c, buffer_t *b) { return step(c, O_TOKENS, b); }
uint16_t stx_operation_p2pk_add_output_registers(ctx_t *c, buffer_t *b) { return step(c, O_REGS, b); }
bool stx_operation_p2pk_should_show_output_confirm_screen(ctx_t *c) {
    CHECK(c == OP && R.ok, "asked after a step that succeeded");
    U.asked = vp_inc(U.asked);
    return U.show = ND_BOOL("show");
}
static uint16_t screen(uint8_t *count) {
    *count = vp_inc(*count);
    U.r = sw_();
    if (U.r == SW_OK) app_set_ui_busy(true);
    return U.r;
}
uint16_t ui_stx_operation_p2pk_show_token_and_path(ctx_t *c, uint32_t app, bool known, void *tx) {
    CHECK(c == OP && R.ok, "shown after a step that succeeded");
    U.app = app;
    U.known = known;
    U.tx = tx;
    return screen(&U.path);
}
uint16_t ui_stx_operation_p2pk_show_output_confirm_screen(ctx_t *c) {
    CHECK(c == OP && R.ok, "shown after a step that succeeded");
    return screen(&U.out);
}
uint16_t ui_stx_operation_p2pk_show_confirm_screen(ctx_t *c) {
    CHECK(c == OP, "shown for the attempt in progress");
    return screen(&U.confirm);
}
uint16_t crypto_generate_public_key(const uint32_t *p, uint8_t len, uint8_t pk[static PUBLIC_KEY_LEN], uint8_t *chain) {
    (void) chain;
    P.n = vp_inc(P.n);
    P.len = len;
    if (k < 10 && k < len) P.path_k = p[k];
    for (int i = 0; i < PUBLIC_KEY_LEN; i++) {
        uint8_t b = ND_U8("pk");
        pk[i] = b;
        if (G_k == (size_t) i) P.at = b;
    }
    return P.r = ND_BOOL("no_key") ? 1 : 0;
}

/* an unknown step has nothing to read: keeps the parsing of all the other steps out of its proof */
static bool read_;
bool stub_u8(buffer_t *b, uint8_t *v) { (void) b; (void) v; read_ = true; return false; }
bool stub_path(buffer_t *b, uint32_t *v, size_t m) { (void) b; (void) v; (void) m; read_ = true; return false; }
bool stub_u64(buffer_t *b, uint64_t *v, endianness_t e) { (void) b; (void) v; (void) e; read_ = true; return false; }
uint8_t stub_frame(const buffer_t *b) { (void) b; read_ = true; return 0; }
/* ---- the command ---- */
static uint64_t be(size_t at, unsigned len) {
    uint64_t v = 0;
    for (unsigned i = 0; i < len; i++) v = (v << 8) | D[at + i];
    return v;
}
static uint32_t comp(unsigned base, unsigned i) { return (uint32_t) be(base + 4 * i, 4); }

void h_sign_handler(void) {
    vp_ghost_init();
    ND_BYTES("data", D);
    n = ND_U8("lc");
#ifdef VP_MAXLC
    VP_ASSUME(n <= VP_MAXLC);
#endif
    in.ptr = D;
    in.size = n;
    in.offset = 0;
    k = ND_U8("k");
    VP_ASSUME(k < 32);
    wb = ND_SIZE("wb");
    VP_ASSUME(wb < sizeof(app_ctx_t));
    BYTES[wb] = ND_U8("app");
    bool busy = ND_BOOL("busy");
    uint8_t cmd = ND_U8("cmd"), st = ND_U8("state"), session = ND_U8("session"), p2 = ND_U8("p2");
    VP_ASSUME(st <= SIGN_TRANSACTION_STATE_ERROR);
    uint32_t app = ND_U32("app_id");
    G_app_context.is_ui_busy = busy;
    G_app_context.current_command = (command_e) cmd;
    G_app_context.connected_app_id = app;
    TXC->state = st;
    TXC->session = session;
    before = BYTES[wb];
    uint8_t sub = VP_SUB ? VP_SUB : ND_U8("sub");
    if (!VP_SUB) VP_ASSUME(sub != 1 && !(sub >= 0x10 && sub <= 0x1A) && sub != 0x20);

    int r = handler_sign_transaction(&in, (sign_transaction_subcommand_e) sub, p2);

    CHECK(G.sends + U.path * (U.r == SW_OK) + U.out * (U.r == SW_OK) + U.confirm * (U.r == SW_OK) == 1, "the command is answered exactly once, now or by the user");
    if (G.sends) CHECK(r == G.send_ret && G.send_len == 0, "the answer is a status word only");
    else CHECK(r == 0, "the user answers");
    if (busy) {
        CHECK(G.sends == 1 && ERROR_SW(G.sw) && R.n == 0 && same(), "while the user decides a command changes nothing");
        REACH(G.sw == SW_BUSY, "busy");
        CASE_END;
    }
    if (VP_SUB == 0x01) {
        bool params = p2 == 1 || p2 == 2;
        if (!params) {
            CHECK(ERROR_SW(G.sw) && R.n == 0 && same(), "a malformed request changes nothing");
            REACH_IF(VP_SUB == 1, true, "bad parameter");
            CASE_END;
        }
        uint8_t len = D[1];
        bool parsed = n >= 2 && len >= 1 && len <= 10 && n == 2u + 4u * len + (p2 == 2 ? 4u : 0u);
        CHECK(R.n == (parsed ? 1 : 0) && R.n == R.inits, "signing starts with a complete request only");
        if (parsed) {
            CHECK(R.path_len == len && R.net == D[0] && (k >= len || k >= 10 || R.path_k == comp(2, k)), "the attempt is for the requested path and network");
            CHECK(R.clean, "nothing of an earlier command is left when an attempt starts");
        }
        bool shown = parsed && R.ok && U.path == 1 && U.r == SW_OK;
        if (shown) {
            uint32_t id = p2 == 2 ? (uint32_t) be(2 + 4 * len, 4) : 0;
            CHECK(U.app == id && U.known == (id != 0 && id == app) && U.tx == TXC, "the user is asked for the requesting application");
            CHECK(TXC->state == SIGN_TRANSACTION_STATE_INITIALIZED && app_current_command() == CMD_SIGN_TRANSACTION && TXC->session != 0 && TXC->session == G.rng_last[0] && G.rngs > 0, "the attempt waits for the user under a fresh session");
            CHECK(U.out == 0 && U.confirm == 0, "no other question is asked");
        } else CHECK(ERROR_SW(G.sw) && gone(), "a failed request is answered by an error and leaves nothing");
        CHECK(app_connected_app_id() == app, "only the user connects an application");
        REACH_IF(VP_SUB == 1, shown && len == 10 && p2 == 2, "asked"); REACH_IF(VP_SUB == 1, parsed && !R.ok, "refused"); REACH_IF(VP_SUB == 1, parsed && R.ok && U.r != SW_OK, "no screen"); REACH_IF(VP_SUB == 1, !parsed, "malformed"); REACH_IF(VP_SUB == 1, shown && U.known, "known");
        CASE_END;
    }
    CHECK(!read_, "an unknown step is not parsed");
    bool turn = cmd == CMD_SIGN_TRANSACTION && session == p2 && VP_SUB && st == SIGN_TRANSACTION_STATE_APPROVED;
    CHECK(R.inits == 0 && U.path == 0, "an attempt in progress is not restarted");
    if (!turn) {
        CHECK(ERROR_SW(G.sw) && R.n == 0 && P.n == 0 && U.out == 0 && U.confirm == 0 && gone(), "a step without an approved attempt under this session is refused and leaves nothing");
        REACH_IF(VP_SUB > 1, cmd != CMD_SIGN_TRANSACTION, "other command"); REACH_IF(VP_SUB > 1, cmd == CMD_SIGN_TRANSACTION && session != p2, "other session"); REACH_IF(VP_SUB > 1, cmd == CMD_SIGN_TRANSACTION && session == p2, "not approved"); REACH_IF(not VP_SUB, true, "unknown step");
        CASE_END;
    }
    bool parsed = true, piece = false;
#define ONE(OPX) CHECK(parsed ? R.n == 1 && R.op == (OPX) : R.n == 0, "a complete request makes its step, once, and nothing else does")
#define WHOLE_DATA() CHECK(R.buf == &in && R.ptr == D && R.size == n && R.offset == 0, "the step gets exactly the received data")
    switch (VP_SUB) {
        case 0x10:
            parsed = n == 7;
            ONE(START);
            if (parsed) CHECK(R.i == be(0, 2) && R.d == be(2, 2) && R.t == D[4] && R.o == be(5, 2), "the counts are those announced");
            break;
        case 0x11: ONE(TOKENS); WHOLE_DATA(); break;
        case 0x12: {
            uint8_t tc = D[42];
            size_t dl = 43 + 40u * tc;
            bool frame = n >= 59 && tc <= 4 && n >= dl + 16;
            CHECK(frame || (R.n == 0 && G.hmacs == 0), "a frame whose length does not fit its token count is refused unread");
            parsed = false;
            if (frame) {
                CHECK(G.hmacs == 1 && G.hmac_key == G_app_context.session_key && G.hmac_key_len == 16 && G.hmac_len == dl && (G_k >= dl || G.hmac_at == D[G_k]), "the authentication is of the whole content, under the key of this session");
                bool mac = true;
                for (unsigned i = 0; i < 16; i++) if (D[dl + i] != G.hmac_mac[i]) mac = false;
                bool first = D[33] == 0;
                parsed = mac && (!first || n >= dl + 20);
                CHECK(parsed || R.n == 0, "a frame that is not authenticated in full has no effect");
                if (parsed) {
                    CHECK(R.inputs == (first ? 1 : 0), "the first frame of a box adds the input, the others do not");
                    if (first) CHECK(R.id_at == D[k] && R.value == be(34, 8) && R.frames == D[32] && R.ext == be(dl + 16, 4), "the input is the attested box, with its attested value");
                    CHECK(R.in_tokens == (R.ok || R.op == IN_TOKENS ? 1 : 0) && R.n == R.inputs + R.in_tokens, "then its tokens are added");
                    if (R.in_tokens) CHECK(R.tid_at == D[k] && R.index == D[33] && R.tok_ptr == D + 43 && R.tok_len == 40u * tc, "the tokens are the attested ones of this frame");
                }
                REACH_IF(VP_SUB == 0x12, mac && first && tc == 4 && R.in_tokens && R.ok, "first frame"); REACH_IF(VP_SUB == 0x12, mac && !first && R.ok, "other frame"); REACH_IF(VP_SUB == 0x12, !mac, "forged"); REACH_IF(VP_SUB == 0x12, mac && !parsed, "extension length missing"); REACH_IF(VP_SUB == 0x12, R.inputs && !R.in_tokens, "input refused");
            }
            REACH_IF(VP_SUB == 0x12, !frame && n >= 59, "bad token count"); REACH_IF(VP_SUB == 0x12, n < 59, "short");
            break;
        }
        case 0x13: ONE(EXT); WHOLE_DATA(); break;
        case 0x14: ONE(DATA); WHOLE_DATA(); break;
        case 0x15:
            parsed = n == 21;
            ONE(OUTPUT);
            if (parsed) CHECK(R.value == be(0, 8) && R.tree == be(8, 4) && R.height == be(12, 4) && R.t == D[16] && R.regs == be(17, 4), "the output is the one announced");
            break;
        case 0x16: ONE(CHUNK); WHOLE_DATA(); piece = true; break;
        case 0x17: parsed = n == 0; ONE(FEE); piece = true; break;
        case 0x18: {
            uint8_t len = D[0];
            uint32_t p[10];
            for (unsigned i = 0; i < 10; i++) p[i] = comp(1, i);
            bool path = n >= 1 && len <= 10 && n >= 1u + 4u * len && spec_path_ok(p, len, BIP32_HARDENED(44), BIP32_HARDENED(BIP32_ERGO_COIN), BIP32_PATH_VALIDATE_ADDRESS_GE5);
            CHECK(P.n == (path ? 1 : 0), "a key is derived for a valid own address only");
            if (path) CHECK(P.len == len && (k >= len || k >= 10 || P.path_k == p[k]), "the key is the one of the received path");
            parsed = path && P.r == 0;
            ONE(CHANGE);
            if (parsed) CHECK(R.path_len == len && (k >= len || k >= 10 || R.path_k == p[k]) && (G_k >= PUBLIC_KEY_LEN || R.pk_at == P.at), "path and key go together");
            piece = true;
            REACH_IF(VP_SUB == 0x18, path && P.r != 0, "no key"); REACH_IF(VP_SUB == 0x18, parsed && len == 10, "long path");
            break;
        }
        case 0x19: ONE(O_TOKENS); WHOLE_DATA(); piece = true; break;
        case 0x1A: ONE(O_REGS); WHOLE_DATA(); piece = true; break;
        case 0x20: CHECK(R.n == 0 && U.confirm == 1, "the transaction is put to the user"); break;
        default: break;
    }
    bool ok = parsed && R.ok;
    if (VP_SUB == 0x20) ok = true;
    else CHECK(U.confirm == 0, "the transaction is put to the user on request only");
    if (piece && ok) {
        CHECK(U.asked >= 1 && U.out == (U.show ? 1 : 0), "after every piece the output is shown if the rule says so");
        CHECK(!U.show || G.sends == 0 || U.r != SW_OK, "a shown output waits for the user");
    } else CHECK(U.out == 0, "nothing is shown for a failed step");
    if (U.out || U.confirm) ok = ok && U.r == SW_OK;
    if (ok) {
        CHECK(G.sends == 0 || G.sw == SW_OK, "a step that succeeded is confirmed");
        CHECK(app_current_command() == CMD_SIGN_TRANSACTION && TXC->state == SIGN_TRANSACTION_STATE_APPROVED && TXC->session == session, "the attempt goes on");
    } else CHECK(G.sends == 1 && ERROR_SW(G.sw) && gone(), "a failed step is answered by an error and leaves nothing");
    REACH_IF(VP_SUB > 1, ok, "ok"); REACH_IF(VP_SUB > 1, !ok, "error");
    REACH_IF(VP_SUB == 0x10 or VP_SUB == 0x15 or VP_SUB == 0x17, !parsed, "malformed"); REACH_IF(VP_SUB >= 0x16 and VP_SUB <= 0x1A, U.out && ok, "shown"); REACH_IF(VP_SUB >= 0x16 and VP_SUB <= 0x1A, ok && U.asked && !U.show, "not shown");
}
