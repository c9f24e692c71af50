/* Units: src/apdu_dispatcher.c, src/context.[ch], src/commands/app_{version,name}.c, src/helpers/sw_result.h,
 * src/helpers/session_id.h */
#include <string.h>
#include "vp_ghost.h"
#include "constants.h"
#include "context.h"
#include "sw.h"
#include "apdu_dispatcher.h"
#include "commands/app_name.h"
#include "commands/app_version.h"
#include "helpers/sw_result.h"
#include "helpers/session_id.h"

static size_t wb; /* watched byte of the application state */
static uint8_t before;
static void mk(void) {
    vp_ghost_init();
    wb = ND_SIZE("wb");
    VP_ASSUME(wb < sizeof(app_ctx_t));
    before = ((uint8_t *) &G_app_context)[wb] = ND_U8("app");
    G_app_context.is_ui_busy = ND_BOOL("busy");
    before = ((uint8_t *) &G_app_context)[wb];
}
static bool same(void) { return ((uint8_t *) &G_app_context)[wb] == before; }
#define ERROR_SW(sw) (sw != SW_OK && (sw >> 12) >= 6 && (sw >> 8) != 0x61 && (sw >> 8) != 0x90)

#ifdef VP_DISPATCH
/* the handlers: only who is called, and with what */
static struct {
    uint8_t n, ins;
    int a, b, ret;
    const uint8_t *ptr;
    size_t size, offset;
} H;
static int handler(uint8_t ins, buffer_t *d, int a, int b) {
    H.n = vp_inc(H.n);
    H.ins = ins;
    H.a = a;
    H.b = b;
    if (d) {
        H.ptr = d->ptr;
        H.size = d->size;
        H.offset = d->offset;
    }
    H.ret = ND_I32("handler");
    return H.ret;
}
int handler_get_version(void) { return handler(CMD_GET_APP_VERSION, NULL, 0, 0); }
int handler_get_app_name(void) { return handler(CMD_GET_APP_NAME, NULL, 0, 0); }
int handler_get_extended_public_key(buffer_t *d, bool token) { return handler(CMD_GET_EXTENDED_PUBLIC_KEY, d, token, 0); }
int handler_derive_address(buffer_t *d, bool display, bool token) { return handler(CMD_DERIVE_ADDRESS, d, display, token); }
#include "commands/attestinput/ainpt_handler.h"
#include "commands/signtx/stx_handler.h"
int handler_attest_input(buffer_t *d, attest_input_subcommand_e sub, uint8_t s) { return handler(CMD_ATTEST_INPUT_BOX, d, (int) sub, s); }
int handler_sign_transaction(buffer_t *d, sign_transaction_subcommand_e sub, uint8_t s) { return handler(CMD_SIGN_TRANSACTION, d, (int) sub, s); }

void h_dispatch(void) {
    mk();
    static uint8_t data[255];
    command_t c;
    c.cla = ND_U8("cla");
    c.ins = ND_U8("ins");
    c.p1 = ND_U8("p1");
    c.p2 = ND_U8("p2");
    c.lc = ND_U8("lc");
    c.data = data;
    int r = apdu_dispatcher(&c);
    bool known = true, params = false, has_data = true;
    int a = 0, b = 0;
    switch (c.ins) {
        case 0x01:
        case 0x02: params = c.p1 == 0 && c.p2 == 0; has_data = false; break;
        case 0x10: params = (c.p1 == 1 || c.p1 == 2) && c.p2 == 0; a = c.p1 == 2; break;
        case 0x11: params = (c.p1 == 1 || c.p1 == 2) && (c.p2 == 1 || c.p2 == 2); a = c.p1 == 2; b = c.p2 == 2; break;
        case 0x20:
        case 0x21: params = c.p1 != 0 && c.p2 != 0; a = c.p1; b = c.p2; break;
        default: known = false;
    }
    bool ok = c.cla == 0xE0 && known && params;
    CHECK(H.n == (ok ? 1 : 0), "exactly a well-formed command reaches a handler, once");
    if (ok) {
        CHECK(H.ins == c.ins && H.a == a && H.b == b, "the handler of the instruction gets the parameters");
        CHECK(!has_data || (H.ptr == data && H.size == c.lc && H.offset == 0), "the handler gets exactly the received data");
        CHECK(r == H.ret && G.sends == 0, "the handler answers");
    } else {
        CHECK(G.sends == 1 && ERROR_SW(G.sw) && G.send_len == 0 && r == G.send_ret, "anything else is answered by one error");
        CHECK(G.sw == (c.cla != 0xE0 ? SW_CLA_NOT_SUPPORTED : !known ? SW_INS_NOT_SUPPORTED : SW_WRONG_P1P2), "the error says what is wrong");
    }
    CHECK(same(), "dispatching changes no state");
    REACH(ok && c.ins == 0x21, "sign"); REACH(ok && c.ins == 0x20, "attest"); REACH(ok && c.ins == 0x11, "address"); REACH(ok && c.ins == 0x10, "key"); REACH(ok && c.ins == 2, "name"); REACH(ok && c.ins == 1, "version");
    REACH(c.cla != 0xE0, "class"); REACH(c.cla == 0xE0 && !known, "instruction"); REACH(c.cla == 0xE0 && known && !params, "parameters");
}
#elif defined(VP_MAIN)
#include "parser.h"
#include "io.h"
void app_main(void);
/* The loop of the application, one arbitrary round: the state in which a command arrives is arbitrary, and the next
 * receive call ends the loop after the round was judged, so every round of every history is covered. */
static struct {
    uint8_t recvs, parses, dispatches, io_inits;
    int len, ret;
    bool good, done;
    command_t cmd;
} M;
void io_init(void) { M.io_inits = vp_inc(M.io_inits); }
static void judge(void) {
    CHECK(M.parses == 1, "every command received is parsed");
    if (M.good) CHECK(M.dispatches == 1 && G.sends == 0, "a well-formed command is handed to the dispatcher, once");
    else CHECK(M.dispatches == 0 && G.sends == 1 && ERROR_SW(G.sw) && G.send_len == 0, "a malformed command is answered by one error");
    CHECK(same(), "the loop itself changes no state");
    M.done = true;
}
int io_recv_command(void) {
    M.recvs = vp_inc(M.recvs);
    if (M.recvs == 1) {
        CHECK(M.io_inits == 1 && G.rngs >= 1 && G.flows >= 1 && G.sends == 0, "the session is set up and the menu shown before the first command");
        mk();
        ND_BYTES("apdu", G_io_apdu_buffer);
        M.len = ND_I32("len");
        VP_ASSUME(M.len <= IO_APDU_BUFFER_SIZE);
        return M.len;
    }
    CHECK(!M.good || M.ret >= 0, "the loop ends when a handler could not answer");
    judge();
    return -1;
}
bool apdu_parser(command_t *c, uint8_t *buf, size_t len) {
    M.parses = vp_inc(M.parses);
    CHECK(buf == G_io_apdu_buffer && len == (size_t) M.len && M.len >= 0, "exactly the received bytes are parsed");
    M.good = ND_BOOL("good");
    M.cmd.cla = ND_U8("cla");
    M.cmd.ins = ND_U8("ins");
    M.cmd.p1 = ND_U8("p1");
    M.cmd.p2 = ND_U8("p2");
    M.cmd.lc = ND_U8("lc");
    M.cmd.data = G_io_apdu_buffer + 5;
    *c = M.cmd;
    return M.good;
}
int apdu_dispatcher(const command_t *c) {
    M.dispatches = vp_inc(M.dispatches);
    CHECK(c->cla == M.cmd.cla && c->ins == M.cmd.ins && c->p1 == M.cmd.p1 && c->p2 == M.cmd.p2 && c->lc == M.cmd.lc && c->data == M.cmd.data, "the dispatcher gets the command as parsed");
    M.ret = ND_I32("dispatch");
    return M.ret;
}
void h_main(void) {
    mk();
    app_main();
    if (M.len < 0) CHECK(M.parses == 0 && M.dispatches == 0 && G.sends == 0 && same(), "nothing received, nothing done");
    else if (!M.done) {
        CHECK(M.good && M.ret < 0, "the loop goes on to the next command");
        judge();
    }
    REACH(M.recvs == 2 && M.good, "dispatched"); REACH(M.recvs == 2 && !M.good, "malformed"); REACH(M.recvs == 1 && M.len >= 0, "no answer"); REACH(M.len < 0, "end");
}
#else
void h_version(void) {
    mk();
    int r = handler_get_version();
    static const uint8_t want[4] = {MAJOR_VERSION, MINOR_VERSION, PATCH_VERSION, 0};
    CHECK(G.sends == 1 && G.sw == SW_OK && G.send_len == 4 && (G_k >= 4 || G.send_at == want[G_k]) && r == G.send_ret, "the reply is major, minor, patch, debug flag");
    CHECK(same(), "nothing changes");
    REACH(G_k == 2, "answered"); REACH(G_app_context.is_ui_busy, "user deciding");
}
void h_name(void) {
    mk();
    int r = handler_get_app_name();
    static const char want[] = APPNAME;
    CHECK(G.sends == 1 && G.sw == SW_OK && G.send_len == sizeof(want) - 1 && (G_k >= sizeof(want) - 1 || G.send_at == (uint8_t) want[G_k]) && r == G.send_ret, "the reply is the application name");
    CHECK(same(), "nothing changes");
    REACH(G_k == 2, "answered"); REACH(G_app_context.is_ui_busy, "user deciding");
}
void h_app_init(void) {
    mk();
    app_init();
    size_t k = offsetof(app_ctx_t, session_key);
    CHECK(G.rngs >= 1 && SESSION_KEY_LEN == 16, "the session key is 16 random bytes");
    if (wb >= k && wb < k + 16) CHECK(((uint8_t *) &G_app_context)[wb] == G.rng_last[wb - k] && G.rng_ptr == G_app_context.session_key && G.rng_len == 16, "every byte of the session key is fresh");
    else CHECK(((uint8_t *) &G_app_context)[wb] == 0, "everything else is cleared");
    REACH(wb == k + 15, "key"); REACH(wb == 0 && before != 0, "cleared");
}
void h_switch(void) {
    mk();
    uint8_t cmd = ND_U8("cmd");
    app_set_current_command((command_e) cmd);
    size_t c = offsetof(app_ctx_t, commands_ctx), e = c + MEMBER_SIZE(app_ctx_t, commands_ctx);
    CHECK(app_current_command() == (command_e) cmd && !app_is_ui_busy(), "the command is in progress and no user decision is pending");
    if (wb >= c && wb < e) CHECK(((uint8_t *) &G_app_context)[wb] == 0, "the whole state of the previous command is erased");
    if (wb < offsetof(app_ctx_t, current_command)) CHECK(same(), "session key and connected application stay");
    REACH(wb == e - 1 && before != 0, "last byte"); REACH(wb == c && before != 0, "first byte"); REACH(wb == offsetof(app_ctx_t, session_key), "key");
}
void h_session_id(void) {
    mk();
    uint8_t old = ND_U8("old");
    G.rng_avoid = old;
    uint8_t id = session_id_new_random(old);
    CHECK(id != 0 && id != old && G.rngs >= 1 && id == G.rng_last[0], "a session id is a fresh random byte, neither zero nor the previous one");
    uint32_t a = ND_U32("a"), b = ND_U32("b");
    CHECK(is_known_application(a, b) == (a == b && a != 0), "an application is known exactly if it is the connected one");
    REACH(G.rngs == 2, "drawn again"); REACH(G.rngs == 1, "first draw");
}
void h_sw_full(void) {
    uint8_t x = ND_U8("x");
    VP_ASSUME((x >= 1 && x <= ERGO_TX_SERIALIZER_FULL_RES_ERR_SMALL_CHUNK) || x == ERGO_TX_SERIALIZER_FULL_RES_OK || x == ERGO_TX_SERIALIZER_FULL_RES_MORE_DATA);
    ergo_tx_serializer_full_result_e r = (ergo_tx_serializer_full_result_e) x;
    uint16_t sw = sw_from_tx_full_result(r);
    if (r == ERGO_TX_SERIALIZER_FULL_RES_OK || r == ERGO_TX_SERIALIZER_FULL_RES_MORE_DATA) CHECK(sw == SW_OK, "success is reported as success");
    else CHECK(ERROR_SW(sw), "an error of the transaction is reported as an error");
    REACH(x == ERGO_TX_SERIALIZER_FULL_RES_ERR_SMALL_CHUNK, "last"); REACH(sw == SW_OK, "ok"); REACH(x == ERGO_TX_SERIALIZER_FULL_RES_ERR_HASHER, "hash");
}
void h_sw_box(void) {
    uint8_t x = ND_U8("x");
    VP_ASSUME((x >= 1 && x <= ERGO_TX_SERIALIZER_BOX_RES_ERR_SMALL_CHUNK) || x == ERGO_TX_SERIALIZER_BOX_RES_OK || x == ERGO_TX_SERIALIZER_BOX_RES_MORE_DATA);
    ergo_tx_serializer_box_result_e r = (ergo_tx_serializer_box_result_e) x;
    uint16_t sw = sw_from_tx_box_result(r);
    if (r == ERGO_TX_SERIALIZER_BOX_RES_OK || r == ERGO_TX_SERIALIZER_BOX_RES_MORE_DATA) CHECK(sw == SW_OK, "success is reported as success");
    else CHECK(ERROR_SW(sw), "an error of the box is reported as an error");
    REACH(x == ERGO_TX_SERIALIZER_BOX_RES_ERR_SMALL_CHUNK, "last"); REACH(sw == SW_OK, "ok"); REACH(x == ERGO_TX_SERIALIZER_BOX_RES_ERR_HASHER, "hash");
}
#endif
