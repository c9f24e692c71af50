/* Units: src/commands/attestinput/ (handler, response, screens), src/context.c, src/helpers/cmd_macros.h
 * The box serializer (tx_ser_box.c) is the recorders below: its contracts are proved in harness/box.c. */
#include <string.h>
#include "vp_ghost.h"
#include "context.h"
#include "sw.h"
#include "ux.h"
#include "ui/ui_main.h"
#include "commands/attestinput/ainpt_handler.h"
#include "commands/attestinput/ainpt_response.h"
#include "common/macros_ext.h"
#include "io.h"

#ifndef VP_SUB
#define VP_SUB 0
#endif
#ifndef VP_I
#define VP_I 5
#endif
#ifndef VP_YES
#define VP_YES 0
#endif
#ifndef VP_N
#define VP_N 0
#endif
#define CTX app_attest_input_context()
#define BYTES ((uint8_t *) &G_app_context)
#define FROM offsetof(app_ctx_t, commands_ctx)
#define LEN MEMBER_SIZE(app_ctx_t, commands_ctx)
#define ERROR_SW(sw) ((sw) != SW_OK && ((sw) >> 12) >= 6 && ((sw) >> 8) != 0x61 && ((sw) >> 8) != 0x90)
#define RES(r) ERGO_TX_SERIALIZER_BOX_RES_##r
#define BOX(s) ERGO_TX_SERIALIZER_BOX_STATE_##s
#define ST(s) ATTEST_INPUT_STATE_##s
typedef ergo_tx_serializer_box_result_e res_t;
typedef ergo_tx_serializer_box_context_t box_t;

static uint8_t D[255];
static buffer_t in;
static size_t n, wb;
static uint8_t before, k;
static bool in_(const void *p, size_t l) {
    size_t o = (size_t) ((const uint8_t *) p - BYTES);
    return wb >= o && wb < o + l;
}
static bool same(void) { return BYTES[wb] == before; }
static bool gone(void) { return app_current_command() == CMD_NONE && !app_is_ui_busy() && (wb < FROM || wb >= FROM + LEN || BYTES[wb] == 0); }
static bool is_text(const char *t, const char *want) {
    size_t i = 0;
    for (; want[i]; i++) if (t[i] != want[i]) return false;
    return t[i] == 0;
}

/* ---- recorders of the box serializer ---- */
static struct {
    uint8_t hash_inits, inits, steps, ids;
    bool hash_ok, ok, clean;
    int op;
    res_t r;
    const cx_blake2b_t *hash;
    uint64_t value;
    uint32_t tree, height, regs;
    uint8_t tokens;
    const buffer_t *buf;
    bool table;
    uint16_t index;
    uint8_t tx_at, id_at;
    bool id_ok, finished;
} R;
enum { TREE = 2, TOKENS, REGS };
bool ergo_tx_serializer_box_id_hash_init(cx_blake2b_t *hash) {
    R.hash_inits = vp_inc(R.hash_inits);
    R.hash = hash;
    return R.hash_ok = ND_BOOL("hash_ok");
}
res_t ergo_tx_serializer_box_init(box_t *c, uint64_t value, uint32_t tree, uint32_t height, uint8_t tokens, uint32_t regs, cx_blake2b_t *hash) {
    CHECK(c == &CTX->box && hash == R.hash && hash == &CTX->hash && R.hash_ok, "the box of this attempt is hashed with its own started hash");
    R.inits = vp_inc(R.inits);
    R.value = value;
    R.tree = tree;
    R.height = height;
    R.tokens = tokens;
    R.regs = regs;
    R.clean = !in_(&G_app_context.commands_ctx, LEN) || BYTES[wb] == 0 || in_(CTX->box_id, 32) || in_(&CTX->box_index, 2);
    R.ok = ND_BOOL("init_ok");
    if (R.ok) {
        c->value = value;
        c->state = BOX(INITIALIZED);
        c->callbacks.on_type = NULL;
        c->callbacks.on_token = NULL;
        c->callbacks.on_finished = NULL;
        c->callbacks.context = NULL;
        return RES(OK);
    }
    c->state = BOX(ERROR);
    return RES(ERR_HASHER);
}
static res_t step(box_t *c, buffer_t *b, int op) {
    CHECK(c == &CTX->box, "the piece is of the box of this attempt");
    R.steps = vp_inc(R.steps);
    R.op = op;
    R.buf = b;
    uint8_t r = ND_U8("res");
    VP_ASSUME(r == RES(OK) || r == RES(MORE_DATA) || (r >= 1 && r <= 0x0A));
    R.ok = r == RES(OK) || r == RES(MORE_DATA);
    R.finished = r == RES(OK) && ND_BOOL("finished");
    c->state = R.finished ? BOX(FINISHED) : R.ok ? BOX(TREE_ADDED) : BOX(ERROR);
    return R.r = (res_t) r;
}
res_t ergo_tx_serializer_box_add_tree(box_t *c, buffer_t *b) { return step(c, b, TREE); }
res_t ergo_tx_serializer_box_add_tokens(box_t *c, buffer_t *b, const ergo_tx_serializer_table_context_t *t) {
    R.table = t != NULL;
    return step(c, b, TOKENS);
}
res_t ergo_tx_serializer_box_add_registers(box_t *c, buffer_t *b) { return step(c, b, REGS); }
res_t ergo_tx_serializer_box_id_hash(box_t *c, const uint8_t tx[static ERGO_ID_LEN], uint16_t index, uint8_t id[static ERGO_ID_LEN]) {
    CHECK(c == &CTX->box && c->state == BOX(FINISHED), "the id is that of the complete box");
    CHECK(id == CTX->box_id, "the attested id is the computed one");
    R.ids = vp_inc(R.ids);
    R.index = index;
    R.tx_at = tx[k];
    for (int i = 0; i < 32; i++) id[i] = ND_U8("id");
    R.id_at = id[k];
    R.id_ok = ND_BOOL("id_ok");
    c->state = R.id_ok ? BOX(HASH_FINALIZED) : BOX(ERROR);
    return R.id_ok ? RES(OK) : RES(ERR_HASHER);
}

/* ---- */
static uint64_t be(size_t at, unsigned len) {
    uint64_t v = 0;
    for (unsigned i = 0; i < len; i++) v = (v << 8) | D[at + i];
    return v;
}
static uint8_t frames_of(uint8_t count) { return count == 0 ? 1 : (uint8_t) ((count + 3) / 4); }
static void press(const char *label) {
    const ux_flow_step_t *s = NULL;
    unsigned found = 0;
    for (unsigned i = 0; i < MAX_NUMBER_OF_SCREENS; i++) {
        const ux_flow_step_t *x = G_ux_flow_steps[i];
        if (x == FLOW_LOOP) break;
        if (x->validate_flow == NULL) continue;
        if (is_text(((const ux_layout_pb_params_t *) x->params)->line1, label)) {
            s = x;
            found++;
        }
    }
    CHECK(found == 1, "the user is offered to approve and to reject, once each");
    s->validate_flow[0]->init(0);
}
static uint8_t sub, p2;
static int r;
static void mk(void) {
    vp_ghost_init();
    ND_BYTES("data", D);
    n = ND_U8("lc");
    in.ptr = D;
    in.size = n;
    in.offset = 0;
    k = ND_U8("k");
    VP_ASSUME(k < 32);
    wb = ND_SIZE("wb");
    VP_ASSUME(wb < sizeof(app_ctx_t));
    BYTES[wb] = ND_U8("app");
    p2 = ND_U8("p2");
}
static attest_input_ctx_t sep;
static uint8_t key[SESSION_KEY_LEN];

void h_attest_init(void) {
    mk();
    bool busy = ND_BOOL("busy");
    uint32_t app = ND_U32("app_id");
    G_app_context.is_ui_busy = busy;
    G_app_context.current_command = (command_e) ND_U8("cmd");
    G_app_context.connected_app_id = app;
    before = BYTES[wb];
    r = handler_attest_input(&in, ATTEST_INPUT_SUBCOMMAND_INIT, p2);
    CHECK(R.steps == 0 && R.ids == 0, "starting adds nothing to the box");
    if (busy) {
        CHECK(G.sends == 1 && r == G.send_ret && ERROR_SW(G.sw) && G.send_len == 0 && R.hash_inits == 0 && same(), "while the user decides a command changes nothing");
        REACH(true, "busy");
        CASE_END;
    }
    bool params = p2 == 1 || p2 == 2, parsed = params && n == (p2 == 2 ? 59 : 55);
    CHECK(R.inits <= 1 && (R.inits == 0 || parsed), "an attestation starts with a complete request only");
    bool ok = parsed && R.inits == 1 && R.ok;
    if (R.inits) {
        CHECK(R.clean, "nothing of an earlier command is left when an attestation starts");
        CHECK(R.value == be(34, 8) && R.tree == be(42, 4) && R.height == be(46, 4) && R.tokens == D[50] && R.regs == be(51, 4), "the box is the one announced");
    }
    CHECK(app_connected_app_id() == app, "only the user connects an application");
    if (!ok) {
        CHECK(G.sends == 1 && r == G.send_ret && ERROR_SW(G.sw) && G.send_len == 0 && (gone() || (!params && same())), "a failed request is answered by an error and leaves nothing");
        REACH(!params, "bad parameter"); REACH(params && !parsed, "malformed"); REACH(parsed && !R.hash_ok, "no hash"); REACH(parsed && R.hash_ok && !R.ok, "refused");
        CASE_END;
    }
    uint32_t id = p2 == 2 ? (uint32_t) be(55, 4) : 0;
    bool known = id != 0 && id == app;
    attest_input_ctx_t *c = CTX;
    CHECK(c->box_id[k] == D[k] && c->box_index == be(32, 2), "the box is output of the announced transaction at the announced index");
    CHECK(c->tokens_table.count == 0, "no token is attested yet");
    CHECK(c->box.callbacks.on_token != NULL && c->box.callbacks.context == c && c->box.state == BOX(INITIALIZED), "the tokens of the box are recorded for this attempt");
    uint8_t session = c->session;
    CHECK(session != 0 && session == G.rng_last[0] && G.rngs > 0, "the attestation has a fresh session");
    CHECK(app_current_command() == CMD_ATTEST_INPUT_BOX, "the attestation is the command in progress");
    if (known) {
        CHECK(G.sends == 1 && r == G.send_ret && G.sw == SW_OK && G.send_len == 1 && (G_k > 0 || G.send_at == session), "a connected application gets the session at once");
        CHECK(c->state == ST(APPROVED) && !app_is_ui_busy(), "and may go on");
        REACH(true, "known");
        CASE_END;
    }
    CHECK(G.sends == 0 && r == 0, "the user answers");
    CHECK(c->state == ST(INITIALIZED) && app_is_ui_busy() && G.flows == 1 && G.flow_steps == G_ux_flow_steps, "the attestation waits for the user");
    if (id) {
        const ux_layout_bn_params_t *bn = G_ux_flow_steps[1]->params;
        bool t = bn->line2[0] == '0' && bn->line2[1] == 'x' && bn->line2[10] == 0;
        for (unsigned i = 0; i < 8; i++) if (bn->line2[2 + i] != "0123456789abcdef"[id >> (28 - 4 * i) & 15]) t = false;
        CHECK(t && is_text(bn->line1, "Application"), "the requesting application is shown");
    }
    before = BYTES[wb];
    G.flows = 0;
    if (VP_YES) {
        press("Approve");
        CHECK(G.sends == 1 && G.sw == SW_OK && G.send_len == 1 && (G_k > 0 || G.send_at == session), "approval is answered with the session");
        CHECK(app_connected_app_id() == id && c->state == ST(APPROVED) && app_current_command() == CMD_ATTEST_INPUT_BOX && !app_is_ui_busy(), "approval connects this application and lets it go on");
        CHECK(same() || in_(&c->state, sizeof c->state) || in_(&G_app_context.is_ui_busy, 1) || in_(&G_app_context.connected_app_id, 4), "nothing else changes");
    } else {
        press("Reject");
        CHECK(G.sends == 1 && G.sw == SW_DENY && G.send_len == 0 && gone() && app_connected_app_id() == app, "rejection is answered with a denial and ends the attestation");
    }
    CHECK(G.flows == 1, "the menu is back");
    REACH(id != 0, "application"); REACH(id == 0, "no application");
}

/* ---- the pieces and the frames ---- */
void h_attest_step(void) {
    mk();
    bool busy = ND_BOOL("busy");
    uint8_t cmd = ND_U8("cmd"), st = ND_U8("state"), session = ND_U8("session"), count = ND_U8("count");
    VP_ASSUME(st <= ST(ERROR) && count <= TOKEN_MAX_COUNT);
    uint16_t index = ND_U16("index");
    G_app_context.is_ui_busy = busy;
    G_app_context.current_command = (command_e) cmd;
    attest_input_ctx_t *c = CTX;
    c->state = st;
    c->session = session;
    c->box_index = index;
    c->tokens_table.count = count;
    uint8_t tx = ND_U8("tx");
    c->box_id[k] = tx;
    before = BYTES[wb];
    sub = VP_SUB ? VP_SUB : ND_U8("sub");
    if (!VP_SUB) VP_ASSUME(sub < 1 || sub > 5);
    r = handler_attest_input(&in, (attest_input_subcommand_e) sub, p2);

    CHECK(G.sends == 1 && r == G.send_ret && R.inits == 0 && R.hash_inits == 0, "the command is answered exactly once, and starts nothing");
    if (busy) {
        CHECK(ERROR_SW(G.sw) && G.send_len == 0 && R.steps == 0 && R.ids == 0 && same(), "while the user decides a command changes nothing");
        REACH(true, "busy");
        CASE_END;
    }
    CHECK(!app_is_ui_busy() && G.flows == 0, "nothing is asked");
    bool turn = VP_SUB && cmd == CMD_ATTEST_INPUT_BOX && session == p2 && st == ST(APPROVED);
    if (!turn) {
        CHECK(ERROR_SW(G.sw) && G.send_len == 0 && R.steps == 0 && R.ids == 0 && gone(), "a piece without an approved attestation under this session is refused and leaves nothing");
        REACH_IF(VP_SUB, cmd != CMD_ATTEST_INPUT_BOX, "other command"); REACH_IF(VP_SUB, cmd == CMD_ATTEST_INPUT_BOX && session != p2, "other session"); REACH_IF(VP_SUB, cmd == CMD_ATTEST_INPUT_BOX && session == p2, "not approved"); REACH_IF(not VP_SUB, true, "unknown step");
        CASE_END;
    }
    CHECK(R.steps == 1 && R.op == VP_SUB && R.buf == &in && in.ptr == D && in.size == n && in.offset == 0 && !R.table, "the box gets exactly the received data, as what it is");
    CHECK(R.ids == (R.finished ? 1 : 0), "the id is computed when the box is complete");
    if (R.ids) CHECK(R.index == index && R.tx_at == tx, "from the announced transaction and index");
    if (!R.ok || (R.ids && !R.id_ok)) {
        CHECK(ERROR_SW(G.sw) && G.send_len == 0 && gone(), "a failure is answered by an error and leaves nothing");
    } else {
        CHECK(app_current_command() == CMD_ATTEST_INPUT_BOX && G.sw == SW_OK && c->session == session && c->box_index == index && c->tokens_table.count == count, "the attestation goes on");
        if (R.finished) {
            CHECK(c->state == ST(FINISHED) && c->box_id[k] == R.id_at, "a complete box is attested under its id");
            CHECK(G.send_len == 1 && (G_k > 0 || G.send_at == frames_of(count)), "the number of frames is answered");
        } else CHECK(c->state == ST(APPROVED) && G.send_len == 0 && c->box_id[k] == tx, "an incomplete box is not attested");
    }
    REACH_IF(VP_SUB, R.finished && R.id_ok && count == 20, "finished"); REACH_IF(VP_SUB, R.finished && R.id_ok && count == 0, "finished, no tokens"); REACH_IF(VP_SUB, R.ids && !R.id_ok, "no id"); REACH_IF(VP_SUB, R.ok && !R.finished, "more"); REACH_IF(VP_SUB, !R.ok, "refused");
}

/* the frame command: the composition of the frame is the recorder below, and proved by the next unit */
static struct { uint8_t n, index; const void *ctx; const uint8_t *key; } F;
int stub_frame(attest_input_ctx_t *c, const uint8_t key[static SESSION_KEY_LEN], uint8_t index) {
    F.n = vp_inc(F.n);
    F.ctx = c;
    F.key = key;
    F.index = index;
    CHECK(G.sends == 0, "nothing is sent before the frame");
    return io_send_sw(ND_BOOL("frame ok") ? SW_OK : SW_BAD_FRAME_INDEX);
}
void h_attest_frame_cmd(void) {
    mk();
    bool busy = ND_BOOL("busy");
    uint8_t cmd = ND_U8("cmd"), st = ND_U8("state"), session = ND_U8("session");
    VP_ASSUME(st <= ST(ERROR));
    attest_input_ctx_t *c = CTX;
    G_app_context.is_ui_busy = busy;
    G_app_context.current_command = (command_e) cmd;
    c->state = st;
    c->session = session;
    before = BYTES[wb];
    r = handler_attest_input(&in, ATTEST_INPUT_SUBCOMMAND_GET_RESPONSE_FRAME, p2);
    CHECK(G.sends == 1 && r == G.send_ret && R.inits == 0 && R.hash_inits == 0 && R.steps == 0 && R.ids == 0, "the command is answered exactly once, and adds nothing");
    bool turn = cmd == CMD_ATTEST_INPUT_BOX && session == p2 && st == ST(FINISHED);
    CHECK(F.n == (!busy && turn && n == 1 ? 1 : 0), "a frame leaves for a complete approved box of this session only, on a complete request");
    if (busy) {
        CHECK(ERROR_SW(G.sw) && G.send_len == 0 && same(), "while the user decides a command changes nothing");
        REACH(true, "busy");
        CASE_END;
    }
    if (!F.n) {
        CHECK(ERROR_SW(G.sw) && G.send_len == 0 && gone(), "anything else is refused and leaves nothing");
        REACH(turn, "malformed"); REACH(!turn, "not complete");
        CASE_END;
    }
    CHECK(F.ctx == c && F.key == G_app_context.session_key && F.index == D[0], "the frame asked for, of this box, under the key of this session");
    CHECK(same(), "asking for a frame changes nothing by itself");
    REACH(true, "frame");
}
/* one frame: VP_I its index, any box */
void h_attest_frame(void) {
    mk();
    uint8_t count = ND_U8("count"), i = VP_I < 5 ? VP_I : ND_U8("index");
    VP_ASSUME(count <= TOKEN_MAX_COUNT && (VP_I < 5 || i >= 5));
    G_app_context.current_command = CMD_ATTEST_INPUT_BOX;
    G_app_context.is_ui_busy = false;
    before = BYTES[wb];
    for (unsigned j = 0; j < SESSION_KEY_LEN; j++) key[j] = ND_U8("key");
    sep.tokens_table.count = count;
    sep.box.value = ND_U64("value");
    uint64_t value = sep.box.value, amount[4];
    uint8_t row[4][32];
    for (unsigned j = 0; j < 32; j++) sep.box_id[j] = ND_U8("id");
    for (unsigned t = 0; t < 4; t++) {
        amount[t] = 0;
        for (unsigned j = 0; j < 32; j++) row[t][j] = 0;
        if (VP_I < 5) {
            for (unsigned j = 0; j < 32; j++) row[t][j] = sep.tokens_table.tokens[VP_I * 4 + t][j] = ND_U8("token");
            amount[t] = sep.token_amounts[VP_I * 4 + t] = ND_U64("amount");
        }
    }
    r = send_response_attested_input_frame(&sep, key, i);
    CHECK(G.sends == 1 && r == G.send_ret && G.flows == 0, "the command is answered exactly once");
    if (i >= frames_of(count)) {
        CHECK(ERROR_SW(G.sw) && G.send_len == 0 && G.hmacs == 0 && gone(), "no frame leaves for an index the box does not have");
        REACH_IF(VP_I > 0, count == 0, "index");
        CASE_END;
    }
    uint8_t tc = (uint8_t) (count - 4 * i > 4 ? 4 : count - 4 * i);
    size_t dl = 43 + 40u * tc, kk = G_k;
    uint8_t want = 0;
    if (kk < 32) want = sep.box_id[kk];
    else if (kk == 32) want = frames_of(count);
    else if (kk == 33) want = i;
    else if (kk < 42) want = (uint8_t) (value >> (8 * (41 - kk)));
    else if (kk == 42) want = tc;
    else for (unsigned t = 0; t < 4; t++) if (kk >= 43 + 40 * t && kk < 83 + 40 * t) {
        size_t o = kk - 43 - 40 * t;
        if (o < 32) want = row[t][o];
        else want = (uint8_t) (amount[t] >> (8 * (39 - o)));
    }
    CHECK(G.sw == SW_OK && G.send_len == dl + 16, "a frame is sent");
    if (kk < dl) CHECK(G.send_at == want, "it is the box id, the frame count and index, the value, and this frame's tokens in full");
    CHECK(G.hmacs == 1 && G.hmac_key == key && G.hmac_key_len == 16 && G.hmac_len == dl, "it is authenticated in full under the given key");
    if (kk < dl) CHECK(G.hmac_at == want, "the authentication is of what is sent");
    if (kk >= dl && kk < dl + 16) CHECK(G.send_at == G.hmac_mac[kk - dl], "the authentication code is sent with it");
    CHECK(same(), "asking for a frame changes nothing");
    REACH_IF(VP_I < 5, count == 4 * VP_I + 4, "full frame"); REACH_IF(VP_I < 5, count == 4 * VP_I + 1, "one token"); REACH_IF(VP_I == 0, count == 0, "no tokens");
}
/* every token of a box of 0..20 tokens is in exactly one frame below the count, at one position */
void h_attest_partition(void) {
    uint8_t count = ND_U8("count"), t = ND_U8("t"), hits = 0;
    VP_ASSUME(count <= TOKEN_MAX_COUNT && t < count);
    for (unsigned i = 0; i < 6; i++)
        for (unsigned j = 0; j < 4; j++)
            if (i < frames_of(count) && 4 * i + j < count && 4 * i + j == t) hits++;
    CHECK(hits == 1 && frames_of(count) <= 5, "together the frames carry every token once");
    REACH(true, "token");
}
/* one token of the box: VP_N tokens are recorded already */
void h_attest_token(void) {
    /* any start registers the same listener */
    vp_ghost_init();
    in.ptr = D;
    in.size = 55;
    p2 = 1;
    (void) handler_attest_input(&in, ATTEST_INPUT_SUBCOMMAND_INIT, p2);
    VP_ASSUME(R.inits == 1 && R.ok);
    ergo_tx_serializer_box_token_cb cb = CTX->box.callbacks.on_token;
    CHECK(cb != NULL, "the tokens of the box are recorded");
    uint8_t id[32], row[TOKEN_MAX_COUNT][32], t = ND_U8("t"), j = ND_U8("j"), type = ND_U8("type");
    VP_ASSUME(t < TOKEN_MAX_COUNT && j < 32 && type <= ERGO_TX_SERIALIZER_BOX_TYPE_TREE);
    uint64_t value = ND_U64("value"), amount[TOKEN_MAX_COUNT];
    bool dup = false;
    for (unsigned i = 0; i < 32; i++) id[i] = ND_U8("id");
    for (unsigned x = 0; x < TOKEN_MAX_COUNT; x++) {
        bool eq = true;
        for (unsigned i = 0; i < 32; i++) {
            row[x][i] = sep.tokens_table.tokens[x][i] = ND_U8("token");
            if (row[x][i] != id[i]) eq = false;
        }
        if (x < VP_N && eq) dup = true;
        amount[x] = sep.token_amounts[x] = ND_U64("amount");
    }
    sep.tokens_table.count = VP_N;
    sep.box.value = ND_U64("box value");
    uint64_t bv = sep.box.value;
    res_t res = cb(type, id, value, &sep);
    if (VP_N >= 20 || dup) {
        CHECK(res != RES(OK) && res != RES(MORE_DATA) && sep.tokens_table.count == VP_N, "a repeated token or one too many is refused");
    } else {
        CHECK(res == RES(OK) && sep.tokens_table.count == VP_N + 1, "a new token is recorded");
        if (t == VP_N) CHECK(sep.tokens_table.tokens[VP_N][j] == id[j] && sep.token_amounts[VP_N] == value, "with its id and amount");
    }
    if (t < VP_N) CHECK(sep.tokens_table.tokens[t][j] == row[t][j] && sep.token_amounts[t] == amount[t], "the tokens before it stay");
    CHECK(sep.box.value == bv, "and so does the value");
    REACH_IF(VP_N < 20, !dup, "recorded"); REACH_IF(VP_N > 0, dup, "repeated"); REACH_IF(VP_N == 20, true, "too many");
}
