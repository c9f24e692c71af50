/* Units: src/ui/ui_dynamic_flow.c, src/ui/ui_menu.c, src/ui/ui_bip32_path.c */
#include <string.h>
#include "vp_ghost.h"
#include "context.h"
#include "sw.h"
#include "ux.h"
#include "ui/ui_main.h"
#include "ui/ui_dynamic_flow.h"
#include "ui/ui_bip32_path.h"

#define BYTES ((uint8_t *) &G_app_context)
#define FROM offsetof(app_ctx_t, commands_ctx)
static size_t wb;
static uint8_t before;
static bool gone(void) {
    return app_current_command() == CMD_NONE && !app_is_ui_busy() && (wb < FROM || wb >= FROM + MEMBER_SIZE(app_ctx_t, commands_ctx) || BYTES[wb] == 0);
}
static char title[20], text[70];
static int token;
static struct { uint8_t n, screen; bool args, free; uint16_t r; } S;
static uint16_t show(uint8_t screen, char *ti, char *te, void *ctx) {
    S.n = vp_inc(S.n);
    S.screen = screen;
    S.args = ti == title && te == text && ctx == &token;
    S.r = SW_OK;
    if (S.free) S.r = ND_U16("show");
    return S.r;
}
static void go(const ux_flow_step_t *s) {
    S.n = 0;
    G.nexts = G.relayouts = 0;
    s->init(0);
}
void h_dynflow(void) {
    vp_ghost_init();
    uint8_t n = ND_U8("n"), screen = 1;
    bool room = ND_BOOL("room");
    if (!room) screen = 6;
    bool r = ui_add_dynamic_flow_screens(&screen, n, title, text, show, &token);
    CHECK(r == (room && n > 0 && n < 255), "a flow of at least one page is added if there is room");
    if (!r) { CHECK(S.n == 0, "nothing is shown"); REACH(true, "refused"); CASE_END; }
    CHECK(screen == 4 && S.n == 0, "a flow takes three screens and shows nothing yet");
    const ux_flow_step_t *first = G_ux_flow_steps[1], *page = G_ux_flow_steps[2], *end = G_ux_flow_steps[3];
    const ux_layout_bnnn_paging_params_t *pp = page->params;
    CHECK(pp->title == title && pp->text == text && page->validate_flow == NULL, "the page shows the current text");
    wb = ND_SIZE("wb");
    VP_ASSUME(wb < sizeof(app_ctx_t));
    BYTES[wb] = ND_U8("app");
    G_app_context.current_command = CMD_SIGN_TRANSACTION;
    G_app_context.is_ui_busy = true;
    before = BYTES[wb];
    G_ux.stack_count = 1;
    G_ux.flow_stack[0].index = 3;
    /* to any page, from the front or from the back, and then one move */
    uint8_t at = ND_U8("at");
    VP_ASSUME(at < n);
    bool inside = ND_BOOL("inside");
    if (inside) {
        go(first);
        CHECK(S.n == 1 && S.screen == 0 && S.args && G.nexts == 1 && G.relayouts == 0, "entering from the front shows the first page");
        for (unsigned i = 0; i < 253; i++)
            if (i < at) {
                go(end);
                CHECK(S.n == 1 && S.screen == i + 1 && S.args && G.nexts == 0 && G.relayouts == 1, "forward shows the next page");
            }
    }
    CHECK(BYTES[wb] == before && G.sends == 0, "showing pages changes nothing");
    bool fwd = ND_BOOL("forward");
    S.free = true;
    S.r = SW_OK;
    go(fwd ? end : first);
    bool leaves = inside && (fwd ? at == n - 1 : at == 0);
    uint8_t to = !inside ? (fwd ? n - 1 : 0) : fwd ? at + 1 : at - 1;
    CHECK(leaves ? S.n == 0 : S.n == 1 && S.screen == to && S.args, "every move shows exactly the neighbouring page, or leaves at the ends");
    if (S.r == SW_OK) {
        bool next = leaves == fwd;
        CHECK(G.nexts == next && G.relayouts == !next, "the flow is left at its ends, forward and backward, and only there");
        CHECK(BYTES[wb] == before && G.sends == 0, "showing pages changes nothing");
    } else {
        CHECK(G.sends == 1 && G.sw == S.r && G.send_len == 0 && gone(), "a page that cannot be shown ends the command with its error");
        CHECK(G.flows == 1, "the menu is back");
    }
    REACH(leaves && fwd, "to the end"); REACH(leaves && !fwd, "to the front"); REACH(inside && !leaves && at == 200, "inside"); REACH(!inside && fwd && S.r != SW_OK, "back in, failed"); REACH(inside && S.r != SW_OK, "failed");
    if (leaves) {
        S.free = false;
        go(end);
        CHECK(S.n == 1 && S.screen == n - 1 && G.relayouts == 1, "coming back shows the last page");
    }
}
static uint8_t pressed;
static void press(void *c) { if (c == &token) pressed = vp_inc(pressed); }
void h_bip32_screen(void) {
    vp_ghost_init();
    static uint32_t path[MAX_BIP32_PATH];
    static char buf[70];
    for (int i = 0; i < 70; i++) buf[i] = 'x';
    uint8_t n = ND_U8("len");
    VP_ASSUME(n <= MAX_BIP32_PATH);
    for (unsigned i = 0; i < MAX_BIP32_PATH; i++) path[i] = ND_U32("path");
    bool cb = ND_BOOL("cb");
    const ux_flow_step_t *s = ui_bip32_path_screen(path, n, title, buf, sizeof buf, cb ? press : NULL, &token);
    CHECK((s != NULL) == (GD.paths == 1 && G.fails == 0), "a path that cannot be shown has no screen");
    if (s == NULL) { REACH(true, "not shown"); CASE_END; }
    bool p = GD.path_dst == buf && GD.path_len == n;
    for (unsigned i = 0; i < MAX_BIP32_PATH; i++) if (i < n && GD.path[i] != path[i]) p = false;
    const ux_layout_bnnn_paging_params_t *pp = s->params;
    CHECK(p && pp->title == title && pp->text == buf, "the screen shows exactly this path");
    CHECK(buf[1] == 0 && buf[69] == 0, "and nothing left over behind it");
    s->validate_flow[0]->init(0);
    CHECK(pressed == (cb ? 1 : 0) && G.nexts == (cb ? 0 : 1), "pressing on the path makes the callback, once, or goes on");
    REACH(cb, "callback"); REACH(!cb, "no callback");
}
