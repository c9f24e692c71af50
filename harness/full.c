/* Units: src/ergo/tx_ser_full.[ch].
 * The sub-serializers are not linked: they are the stubs below, which do exactly what the contracts
 * proved in harness/table.c, input.c and box.c allow (a caller is checked against the contracts). */
#include <string.h>
#include "vp_ghost.h"
#include "stream.h"
#include "ergo/tx_ser_full.h"

static ergo_tx_serializer_full_context_t c, c0;
static cx_blake2b_t hash, h0;
static uint8_t fails0;
static token_table_t T;
static uint8_t D[255], BOX[32], PK[PUBLIC_KEY_LEN];
static buffer_t in;
static size_t wb; /* watched byte of the sub-serializer's state */

typedef enum { NONE, T_INIT, T_ADD, T_HASH, I_INIT, I_TOKENS, I_EXT, B_INIT, B_TREE, B_FEE, B_CHANGE, B_TOKENS, B_REGS } op_t;
/* ghost: the sub-step that was made, and the table hashing */
static struct {
    uint8_t n;
    op_t op;
    bool args, err, fin;   /* arguments passed on; failed; item complete */
    bool more;
    cx_blake2b_t before, after;
    uint8_t left;          /* watched byte of the sub-state when the sub-step returned */
    uint8_t th;            /* table hashings */
    bool th_args, th_err;
    cx_blake2b_t th_before, th_after;
} S;
/* expected arguments */
static struct {
    uint64_t value;
    uint32_t tree, height, regs, ext;
    uint8_t tokens, frames, index;
    bool mainnet;
} A;
static uint8_t *sub(void) { return (uint8_t *) &c.box_ctx; }

static void enter(op_t op, bool args) {
    S.n = vp_inc(S.n);
    S.op = op;
    S.args = args;
    S.before = hash;
}
/* an arbitrary contribution to the hash (empty for a refusal in a wrong state) */
static void contribute(bool any) {
    if (any) {
        size_t n = ND_SIZE("contributed");
        VP_ASSUME(n <= 1000);
        if (G_k >= hash.len && G_k - hash.len < n) hash.at = ND_U8("contributed_byte");
        hash.len += n;
    }
    S.after = hash;
}
static uint8_t err(uint8_t max) {
    uint8_t e = ND_U8("sub_error");
    VP_ASSUME(e >= 1 && e <= max);
    S.err = true;
    return e;
}
ergo_tx_serializer_table_result_e ergo_tx_serializer_table_init(ergo_tx_serializer_table_context_t *x, uint8_t n, token_table_t *t) {
    enter(T_INIT, x == &c.table_ctx && n == A.tokens && t == &T);
    contribute(false);
    if (t->count != 0 || n > TOKEN_MAX_COUNT) return (ergo_tx_serializer_table_result_e) err(4);
    x->tokens_table = t;
    x->distinct_tokens_count = n;
    return ERGO_TX_SERIALIZER_TABLE_RES_OK;
}
ergo_tx_serializer_table_result_e ergo_tx_serializer_table_add(ergo_tx_serializer_table_context_t *x, buffer_t *b) {
    enter(T_ADD, x == &c.table_ctx && b == &in);
    contribute(false);
    if (ND_BOOL("sub_fails")) return (ergo_tx_serializer_table_result_e) err(4);
    S.fin = ND_BOOL("sub_finishes");
    return S.fin ? ERGO_TX_SERIALIZER_TABLE_RES_OK : ERGO_TX_SERIALIZER_TABLE_RES_MORE_DATA;
}
ergo_tx_serializer_table_result_e ergo_tx_serializer_table_hash(const ergo_tx_serializer_table_context_t *x, cx_blake2b_t *h) {
    S.th = vp_inc(S.th);
    S.th_args = x == &c.table_ctx && h == &hash && x->tokens_table == c0.table_ctx.tokens_table && x->distinct_tokens_count == c0.table_ctx.distinct_tokens_count;
    S.th_before = hash;
    size_t n = ND_SIZE("table");
    VP_ASSUME(n >= 1 && n <= 641);
    if (G_k >= hash.len && G_k - hash.len < n) hash.at = ND_U8("table_byte");
    hash.len += n;
    S.th_after = hash;
    if (ND_BOOL("table_fails")) {
        uint8_t e = ND_U8("table_error");
        VP_ASSUME(e >= 1 && e <= 4);
        S.th_err = true;
        return (ergo_tx_serializer_table_result_e) e;
    }
    return ERGO_TX_SERIALIZER_TABLE_RES_OK;
}
static ergo_tx_serializer_input_result_e in_err(ergo_tx_serializer_input_context_t *x) {
    x->state = ERGO_TX_SERIALIZER_INPUT_STATE_ERROR;
    S.left = sub()[wb];
    return (ergo_tx_serializer_input_result_e) err(ERGO_TX_SERIALIZER_INPUT_RES_ERR_TOO_MANY_TOKENS);
}
static ergo_tx_serializer_input_result_e in_ok(ergo_tx_serializer_input_context_t *x, ergo_tx_serializer_input_state_e next, bool more) {
    x->state = next;
    S.more = more;
    S.fin = !more && next == ERGO_TX_SERIALIZER_INPUT_STATE_FINISHED;
    S.left = sub()[wb];
    return more ? ERGO_TX_SERIALIZER_INPUT_RES_MORE_DATA : ERGO_TX_SERIALIZER_INPUT_RES_OK;
}
ergo_tx_serializer_input_result_e ergo_tx_serializer_input_init(ergo_tx_serializer_input_context_t *x, const uint8_t box[ERGO_ID_LEN], uint8_t frames,
                                                                uint32_t ext, token_table_t *t, cx_blake2b_t *h) {
    enter(I_INIT, x == &c.input_ctx && box == BOX && frames == A.frames && ext == A.ext && t == c0.table_ctx.tokens_table && h == c0.hash);
    contribute(false);
    if (ext == 1 || ext > MAX_TX_DATA_PART_LEN) return in_err(x);
    return in_ok(x, ERGO_TX_SERIALIZER_INPUT_STATE_FRAMES_STARTED, false);
}
ergo_tx_serializer_input_result_e ergo_tx_serializer_input_add_tokens(ergo_tx_serializer_input_context_t *x, const uint8_t box[ERGO_ID_LEN], uint8_t index, buffer_t *b) {
    enter(I_TOKENS, x == &c.input_ctx && box == BOX && index == A.index && b == &in);
    bool place = x->state == ERGO_TX_SERIALIZER_INPUT_STATE_FRAMES_STARTED;
    contribute(place);
    if (!place || ND_BOOL("sub_fails")) return in_err(x);
    if (ND_BOOL("sub_more")) return in_ok(x, x->state, true);
    return in_ok(x, ND_BOOL("ext") ? ERGO_TX_SERIALIZER_INPUT_STATE_EXTENSION_STARTED : ERGO_TX_SERIALIZER_INPUT_STATE_FINISHED, false);
}
ergo_tx_serializer_input_result_e ergo_tx_serializer_input_add_context_extension(ergo_tx_serializer_input_context_t *x, buffer_t *b) {
    enter(I_EXT, x == &c.input_ctx && b == &in);
    bool place = x->state == ERGO_TX_SERIALIZER_INPUT_STATE_EXTENSION_STARTED;
    contribute(place);
    if (!place || ND_BOOL("sub_fails")) return in_err(x);
    if (ND_BOOL("sub_more")) return in_ok(x, x->state, true);
    return in_ok(x, ERGO_TX_SERIALIZER_INPUT_STATE_FINISHED, false);
}
static ergo_tx_serializer_box_result_e box_err(ergo_tx_serializer_box_context_t *x) {
    x->state = ERGO_TX_SERIALIZER_BOX_STATE_ERROR;
    S.left = sub()[wb];
    return (ergo_tx_serializer_box_result_e) err(ERGO_TX_SERIALIZER_BOX_RES_ERR_SMALL_CHUNK);
}
static ergo_tx_serializer_box_result_e box_ok(ergo_tx_serializer_box_context_t *x, ergo_tx_serializer_box_state_e next, bool more) {
    x->state = next;
    S.more = more;
    S.fin = !more && next == ERGO_TX_SERIALIZER_BOX_STATE_FINISHED;
    S.left = sub()[wb];
    return more ? ERGO_TX_SERIALIZER_BOX_RES_MORE_DATA : ERGO_TX_SERIALIZER_BOX_RES_OK;
}
static ergo_tx_serializer_box_state_e later(uint8_t first) { /* TREE_ADDED, TOKENS_ADDED or FINISHED */
    uint8_t s = ND_U8("next_state");
    VP_ASSUME(s >= first && s <= ERGO_TX_SERIALIZER_BOX_STATE_FINISHED);
    return (ergo_tx_serializer_box_state_e) s;
}
ergo_tx_serializer_box_result_e ergo_tx_serializer_box_init(ergo_tx_serializer_box_context_t *x, uint64_t value, uint32_t tree, uint32_t height, uint8_t tokens,
                                                            uint32_t regs, cx_blake2b_t *h) {
    enter(B_INIT, x == &c.box_ctx && value == A.value && tree == A.tree && height == A.height && tokens == A.tokens && regs == A.regs && h == c0.hash);
    bool sizes = tokens <= TOKEN_MAX_COUNT && tree <= MAX_TX_DATA_PART_LEN && regs <= MAX_TX_DATA_PART_LEN;
    contribute(sizes);
    if (!sizes || ND_BOOL("sub_fails")) return box_err(x);
    return box_ok(x, ERGO_TX_SERIALIZER_BOX_STATE_INITIALIZED, false);
}
static ergo_tx_serializer_box_result_e box_tree(ergo_tx_serializer_box_context_t *x, bool may_more) {
    bool place = x->state == ERGO_TX_SERIALIZER_BOX_STATE_INITIALIZED;
    contribute(place);
    if (!place || ND_BOOL("sub_fails")) return box_err(x);
    if (may_more && ND_BOOL("sub_more")) return box_ok(x, x->state, true);
    return box_ok(x, later(ERGO_TX_SERIALIZER_BOX_STATE_TREE_ADDED), false);
}
ergo_tx_serializer_box_result_e ergo_tx_serializer_box_add_tree(ergo_tx_serializer_box_context_t *x, buffer_t *b) {
    enter(B_TREE, x == &c.box_ctx && b == &in);
    return box_tree(x, true);
}
ergo_tx_serializer_box_result_e ergo_tx_serializer_box_add_miners_fee_tree(ergo_tx_serializer_box_context_t *x, bool mainnet) {
    enter(B_FEE, x == &c.box_ctx && mainnet == A.mainnet);
    return box_tree(x, false);
}
ergo_tx_serializer_box_result_e ergo_tx_serializer_box_add_change_tree(ergo_tx_serializer_box_context_t *x, const uint8_t pk[static PUBLIC_KEY_LEN]) {
    enter(B_CHANGE, x == &c.box_ctx && pk == PK);
    return box_tree(x, false);
}
ergo_tx_serializer_box_result_e ergo_tx_serializer_box_add_tokens(ergo_tx_serializer_box_context_t *x, buffer_t *b, const ergo_tx_serializer_table_context_t *t) {
    enter(B_TOKENS, x == &c.box_ctx && b == &in && t == &c.table_ctx);
    bool place = x->state == ERGO_TX_SERIALIZER_BOX_STATE_TREE_ADDED;
    contribute(place);
    if (!place || ND_BOOL("sub_fails")) return box_err(x);
    if (ND_BOOL("sub_more")) return box_ok(x, x->state, true);
    return box_ok(x, later(ERGO_TX_SERIALIZER_BOX_STATE_TOKENS_ADDED), false);
}
ergo_tx_serializer_box_result_e ergo_tx_serializer_box_add_registers(ergo_tx_serializer_box_context_t *x, buffer_t *b) {
    enter(B_REGS, x == &c.box_ctx && b == &in);
    bool place = x->state == ERGO_TX_SERIALIZER_BOX_STATE_TOKENS_ADDED;
    contribute(place);
    if (!place || ND_BOOL("sub_fails")) return box_err(x);
    if (ND_BOOL("sub_more")) return box_ok(x, x->state, true);
    return box_ok(x, ERGO_TX_SERIALIZER_BOX_STATE_FINISHED, false);
}

typedef ergo_tx_serializer_full_result_e res_t;
#define OK ERGO_TX_SERIALIZER_FULL_RES_OK
#define MORE ERGO_TX_SERIALIZER_FULL_RES_MORE_DATA
static bool same_hash(const cx_blake2b_t *a, const cx_blake2b_t *b) { return a->active == b->active && a->len == b->len && a->at == b->at && a->inits == b->inits; }
/* every failure: an error, and nothing is accepted any more */
static bool is_err(res_t r) {
    return r >= ERGO_TX_SERIALIZER_FULL_RES_ERR_BAD_TOKEN_ID && r <= ERGO_TX_SERIALIZER_FULL_RES_ERR_SMALL_CHUNK && c.state == ERGO_TX_SERIALIZER_FULL_STATE_ERROR;
}
static bool refused(res_t r) { return is_err(r) && S.n == 0 && S.th == 0 && same_hash(&hash, &h0); }
/* the invariant of a transaction in progress */
static bool inv(const ergo_tx_serializer_full_context_t *x) {
    switch (x->state) {
        case ERGO_TX_SERIALIZER_FULL_STATE_TOKENS_STARTED:
        case ERGO_TX_SERIALIZER_FULL_STATE_INPUTS_STARTED:
            return x->inputs_count > 0 && x->outputs_count > 0;
        case ERGO_TX_SERIALIZER_FULL_STATE_DATA_INPUTS_STARTED:
            return x->inputs_count == 0 && x->data_inputs_count > 0 && x->outputs_count > 0;
        case ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED:
            return x->inputs_count == 0 && x->data_inputs_count == 0 && x->outputs_count > 0;
        case ERGO_TX_SERIALIZER_FULL_STATE_FINISHED:
            return x->inputs_count == 0 && x->data_inputs_count == 0 && x->outputs_count == 0;
        default:
            return x->state == ERGO_TX_SERIALIZER_FULL_STATE_ERROR;
    }
}
static void mk(void) {
    vp_ghost_init();
    hash.active = true;
    hash.at = ND_U8("at");
    h0 = hash;
    fails0 = G.fails;
    wb = ND_SIZE("wb");
    VP_ASSUME(wb < sizeof(ergo_tx_serializer_box_context_t));
    uint8_t st = ND_U8("state");
    VP_ASSUME(st <= ERGO_TX_SERIALIZER_FULL_STATE_ERROR);
    c.state = (ergo_tx_serializer_full_state_e) st;
    c.inputs_count = ND_U16("inputs");
    c.data_inputs_count = ND_U16("data_inputs");
    c.outputs_count = ND_U16("outputs");
    c.hash = &hash;
    c.table_ctx.tokens_table = &T;
    c.table_ctx.distinct_tokens_count = ND_U8("distinct");
    uint8_t sub_state = ND_U8("sub_state");
    if (st == ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED || st == ERGO_TX_SERIALIZER_FULL_STATE_FINISHED) {
        VP_ASSUME(sub_state <= ERGO_TX_SERIALIZER_BOX_STATE_ERROR);
        c.box_ctx.state = (ergo_tx_serializer_box_state_e) sub_state;
    } else {
        VP_ASSUME(sub_state <= ERGO_TX_SERIALIZER_INPUT_STATE_ERROR);
        c.input_ctx.state = (ergo_tx_serializer_input_state_e) sub_state;
    }
    VP_ASSUME(inv(&c));
    c0 = c;
    in.ptr = D;
    in.size = 100;
    A.index = ND_U8("index");
    A.value = ND_U64("value");
    A.tree = ND_U32("tree");
    A.height = ND_U32("height");
    A.regs = ND_U32("regs");
    A.ext = ND_U32("ext_size");
    A.tokens = ND_U8("tokens");
    A.frames = ND_U8("frames");
    A.mainnet = ND_BOOL("mainnet");
}
/* what no step may change */
static bool frame(void) {
    return c.hash == c0.hash && c.table_ctx.tokens_table == c0.table_ctx.tokens_table && c.table_ctx.distinct_tokens_count == c0.table_ctx.distinct_tokens_count;
}
static bool counts(unsigned i, unsigned d, unsigned o) { return c.inputs_count == i && c.data_inputs_count == d && c.outputs_count == o; }

/* the data inputs are complete: table, then number of outputs; s is the expected stream so far */
static void data_done(res_t r, const cx_blake2b_t *so_far, bool failed) {
    CHECK(S.th <= 1, "the token list is hashed at most once");
    if (failed || S.th_err) {
        CHECK(is_err(r), "a failure is reported and sticks");
        return;
    }
    st_t s;
    CHECK(S.th == 1 && S.th_args && same_hash(&S.th_before, so_far), "the token list follows the data inputs directly");
    st_begin(&s, &S.th_after);
    st_vlq(&s, c0.outputs_count);
    CHECK(r == OK && st_is(&s, &hash), "the number of outputs follows the token list");
    CHECK(c.state == ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED && counts(0, 0, c0.outputs_count) && c.box_ctx.state == ERGO_TX_SERIALIZER_BOX_STATE_FINISHED && frame(),
          "the outputs come next, none of them in progress");
}
static void input_step(res_t r, op_t op) {
    if (c0.state != ERGO_TX_SERIALIZER_FULL_STATE_INPUTS_STARTED) {
        CHECK(refused(r), "input data outside the inputs section is refused without effect");
        return;
    }
    CHECK(S.n == 1 && S.op == op && S.args && same_hash(&S.before, &h0), "the step is passed on once, unchanged");
    bool failed = S.err || G.fails != fails0;
    if (S.err) {
        CHECK(is_err(r) && S.th == 0 && same_hash(&hash, &S.after), "a failure of the step is reported, sticks, and nothing more is hashed");
    } else if (!S.fin || c0.inputs_count > 1) {
        unsigned left = c0.inputs_count - (S.fin ? 1 : 0);
        CHECK(counts(left, c0.data_inputs_count, c0.outputs_count) && c.state == c0.state && frame(), "an input counts when it is complete, and only then");
        CHECK(r == (S.more ? MORE : OK) && S.th == 0 && same_hash(&hash, &S.after) && sub()[wb] == S.left, "nothing else is hashed or changed");
    } else {
        /* the last input */
        st_t s;
        st_begin(&s, &S.after);
        st_vlq(&s, c0.data_inputs_count);
        cx_blake2b_t want = S.after;
        want.len = s.len;
        want.at = s.at;
        if (c0.data_inputs_count == 0) {
            data_done(r, &want, failed);
        } else if (failed) {
            CHECK(is_err(r) && S.th == 0, "a failure is reported and sticks");
        } else {
            CHECK(r == OK && same_hash(&hash, &want) && S.th == 0, "the number of data inputs follows the last input");
            CHECK(c.state == ERGO_TX_SERIALIZER_FULL_STATE_DATA_INPUTS_STARTED && counts(0, c0.data_inputs_count, c0.outputs_count) && frame(), "the data inputs come next");
        }
    }
    CHECK(inv(&c), "the section and its counts agree");
}
static void box_step(res_t r, op_t op) {
    if (c0.state != ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED) {
        CHECK(refused(r), "output data outside the outputs section is refused without effect");
        return;
    }
    CHECK(S.n == 1 && S.op == op && S.args && same_hash(&S.before, &h0) && S.th == 0 && same_hash(&hash, &S.after), "the step is passed on once, unchanged, and nothing else is hashed");
    if (S.err) {
        CHECK(is_err(r), "a failure of the step is reported and sticks");
    } else {
        unsigned left = c0.outputs_count - (S.fin ? 1 : 0);
        CHECK(counts(0, 0, left) && frame() && sub()[wb] == S.left, "an output counts when it is complete, and only then");
        CHECK(c.state == (left == 0 ? ERGO_TX_SERIALIZER_FULL_STATE_FINISHED : c0.state), "the transaction is complete with its last output");
        CHECK(ergo_tx_serializer_full_is_finished(&c) == (left == 0), "the transaction is complete with its last output");
        CHECK(r == (S.more ? MORE : OK), "success is reported for what was accepted");
    }
    CHECK(inv(&c), "the section and its counts agree");
}
#define REACH_STEP(s)                                                                                                                       \
    REACH(c0.state == (s) && S.err, "failed"); REACH(c0.state == (s) && !S.err && !S.fin, "accepted"); REACH(c0.state != (s), "refused")

void h_full_init(void) {
    mk();
    T.count = ND_U8("count");
    uint16_t i = ND_U16("n_inputs"), d = ND_U16("n_data"), o = ND_U16("n_outputs");
    res_t r = ergo_tx_serializer_full_init(&c, i, d, o, A.tokens, &hash, &T);
    bool failed = G.fails != fails0 || S.err;
    if (i == 0 || o == 0) {
        CHECK(is_err(r) && same_hash(&hash, &h0), "a transaction without inputs or outputs is refused");
    } else if (failed) {
        CHECK(is_err(r), "a failure is reported and sticks");
    } else {
        st_t s;
        st_begin(&s, &h0);
        st_vlq(&s, i);
        CHECK(r == OK && S.n == 1 && S.op == T_INIT && S.args && S.th == 0 && st_is(&s, &hash), "the number of inputs is hashed first");
        CHECK(counts(i, d, o) && c.hash == &hash && c.table_ctx.tokens_table == &T && c.table_ctx.distinct_tokens_count == A.tokens, "the announced counts are kept");
        if (A.tokens) CHECK(c.state == ERGO_TX_SERIALIZER_FULL_STATE_TOKENS_STARTED, "the token list comes first");
        else CHECK(c.state == ERGO_TX_SERIALIZER_FULL_STATE_INPUTS_STARTED && c.input_ctx.state == ERGO_TX_SERIALIZER_INPUT_STATE_FINISHED, "without tokens the inputs come first, none of them in progress");
    }
    CHECK(inv(&c), "the section and its counts agree");
    REACH(c.state == ERGO_TX_SERIALIZER_FULL_STATE_TOKENS_STARTED, "tokens"); REACH(c.state == ERGO_TX_SERIALIZER_FULL_STATE_INPUTS_STARTED, "inputs");
    REACH(i == 0, "no inputs"); REACH(failed, "failed");
}
void h_full_tokens(void) {
    mk();
    res_t r = ergo_tx_serializer_full_add_tokens(&c, &in);
    if (c0.state != ERGO_TX_SERIALIZER_FULL_STATE_TOKENS_STARTED) {
        CHECK(refused(r), "token ids outside their section are refused without effect");
    } else {
        CHECK(S.n == 1 && S.op == T_ADD && S.args && same_hash(&hash, &h0) && S.th == 0, "the ids are passed on once");
        if (S.err) {
            CHECK(is_err(r), "a failure is reported and sticks");
        } else {
            CHECK(counts(c0.inputs_count, c0.data_inputs_count, c0.outputs_count) && frame(), "counts are kept");
            if (S.fin) CHECK(r == OK && c.state == ERGO_TX_SERIALIZER_FULL_STATE_INPUTS_STARTED && c.input_ctx.state == ERGO_TX_SERIALIZER_INPUT_STATE_FINISHED, "the inputs come next, none of them in progress");
            else CHECK(r == MORE && c.state == c0.state, "more ids are expected");
        }
    }
    CHECK(inv(&c), "the section and its counts agree");
    REACH_STEP(ERGO_TX_SERIALIZER_FULL_STATE_TOKENS_STARTED); REACH(S.fin, "complete");
}
void h_full_input(void) {
    mk();
    res_t r = ergo_tx_serializer_full_add_input(&c, BOX, A.frames, A.ext);
    if (c0.state == ERGO_TX_SERIALIZER_FULL_STATE_INPUTS_STARTED && c0.input_ctx.state != ERGO_TX_SERIALIZER_INPUT_STATE_FINISHED)
        CHECK(refused(r), "an input in progress cannot be replaced by another");
    else
        input_step(r, I_INIT);
    REACH_STEP(ERGO_TX_SERIALIZER_FULL_STATE_INPUTS_STARTED);
}
void h_full_input_tokens(void) {
    mk();
    res_t r = ergo_tx_serializer_full_add_input_tokens(&c, BOX, A.index, &in);
    input_step(r, I_TOKENS);
    REACH_STEP(ERGO_TX_SERIALIZER_FULL_STATE_INPUTS_STARTED); REACH(S.fin && c0.inputs_count == 2, "complete");
    REACH(c.state == ERGO_TX_SERIALIZER_FULL_STATE_DATA_INPUTS_STARTED && r == OK, "data inputs next"); REACH(r == OK && S.th == 1, "outputs next");
}
void h_full_input_ext(void) {
    mk();
    res_t r = ergo_tx_serializer_full_add_input_context_extension(&c, &in);
    input_step(r, I_EXT);
    REACH_STEP(ERGO_TX_SERIALIZER_FULL_STATE_INPUTS_STARTED); REACH(S.fin && c0.inputs_count == 2, "complete");
    REACH(c.state == ERGO_TX_SERIALIZER_FULL_STATE_DATA_INPUTS_STARTED && r == OK, "data inputs next"); REACH(r == OK && S.th == 1, "outputs next");
}
#ifndef VP_K
#define VP_K 1
#endif
static void data_inputs(size_t n) {
    in.size = n;
    res_t r = ergo_tx_serializer_full_add_data_inputs(&c, &in);
    bool failed = G.fails != fails0;
    CHECK(S.n == 0, "no other part is touched");
    if (c0.state != ERGO_TX_SERIALIZER_FULL_STATE_DATA_INPUTS_STARTED) {
        CHECK(refused(r), "data inputs outside their section are refused without effect");
    } else if (n % 32 != 0 || n / 32 > c0.data_inputs_count) {
        CHECK(is_err(r) && S.th == 0, "too many data inputs, or one cut off, are refused");
    } else {
        st_t s;
        st_begin(&s, &h0);
        st_bytes(&s, D, n);
        cx_blake2b_t want = h0;
        want.len = s.len;
        want.at = s.at;
        if (c0.data_inputs_count == n / 32) {
            data_done(r, &want, failed);
        } else if (failed) {
            CHECK(is_err(r) && S.th == 0, "a failure is reported and sticks");
        } else {
            CHECK(r == MORE && same_hash(&hash, &want) && S.th == 0, "exactly the data input ids are hashed");
            CHECK(c.state == c0.state && counts(0, c0.data_inputs_count - n / 32, c0.outputs_count) && frame(), "each data input counts once");
        }
    }
    CHECK(inv(&c), "the section and its counts agree");
}
void h_full_data_inputs(void) {
    mk();
    for (unsigned i = 0; i < 255; i++) D[i] = ND_U8("D");
    data_inputs(32 * VP_K);
    REACH(c.state == ERGO_TX_SERIALIZER_FULL_STATE_DATA_INPUTS_STARTED, "more");
    REACH_IF(VP_K > 0, c.state == ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED && c0.state != c.state, "complete"); REACH_IF(VP_K > 0, G.fails != fails0, "failed");
}
void h_full_data_inputs_cut(void) {
    mk();
    for (unsigned i = 0; i < 255; i++) D[i] = ND_U8("D");
    size_t rem = ND_SIZE("rem");
    VP_ASSUME(rem > 0 && rem < 32 && 32 * VP_K + rem <= 255);
    for (unsigned x = 1; x < 32; x++)
        if (rem == x) {
            data_inputs(32 * VP_K + x);
            if (x == 1) REACH(c0.state == ERGO_TX_SERIALIZER_FULL_STATE_DATA_INPUTS_STARTED, "cut");
            CASE_END;
        }
}
void h_full_box(void) {
    mk();
    res_t r = ergo_tx_serializer_full_add_box(&c, A.value, A.tree, A.height, A.tokens, A.regs);
    if (c0.state == ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED && c0.box_ctx.state != ERGO_TX_SERIALIZER_BOX_STATE_FINISHED)
        CHECK(refused(r), "an output in progress cannot be replaced by another");
    else
        box_step(r, B_INIT);
    REACH_STEP(ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED);
}
#define BOX_STEP(name, op, call)                                                                             \
    void name(void) {                                                                                        \
        mk();                                                                                                \
        res_t r = call;                                                                                      \
        box_step(r, op);                                                                                     \
        REACH_STEP(ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED); REACH(S.fin && c.outputs_count == 0, "complete"); \
    }
BOX_STEP(h_full_box_tree, B_TREE, ergo_tx_serializer_full_add_box_ergo_tree(&c, &in))
BOX_STEP(h_full_box_change, B_CHANGE, ergo_tx_serializer_full_add_box_change_tree(&c, PK))
BOX_STEP(h_full_box_fee, B_FEE, ergo_tx_serializer_full_add_box_miners_fee_tree(&c, A.mainnet))
BOX_STEP(h_full_box_tokens, B_TOKENS, ergo_tx_serializer_full_add_box_tokens(&c, &in))
static void h_regs(void);
void h_full_box_registers(void) { h_regs(); }
static void h_regs(void) {
    mk();
    res_t r = ergo_tx_serializer_full_add_box_registers(&c, &in);
    box_step(r, B_REGS);
    REACH(c0.state == ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED && S.err, "failed"); REACH(S.more, "accepted"); REACH(S.fin && c.outputs_count == 0, "complete");
}
static ergo_tx_serializer_input_result_e icb(const uint8_t a[static ERGO_ID_LEN], const uint8_t b[static ERGO_ID_LEN], uint64_t v, void *x) { return 0x7f; }
static ergo_tx_serializer_box_result_e bcb1(ergo_tx_serializer_box_type_e t, uint64_t v, void *x) { return 0x7f; }
static ergo_tx_serializer_box_result_e bcb2(ergo_tx_serializer_box_type_e t, const uint8_t id[static ERGO_ID_LEN], uint64_t v, void *x) { return 0x7f; }
static ergo_tx_serializer_box_result_e bcb3(ergo_tx_serializer_box_type_e t, void *x) { return 0x7f; }
void h_full_callbacks(void) {
    mk();
    if (ND_BOOL("input")) {
        res_t r = ergo_tx_serializer_full_set_input_callback(&c, icb, &in);
        if (c0.state != ERGO_TX_SERIALIZER_FULL_STATE_INPUTS_STARTED) CHECK(refused(r), "a listener outside the inputs section is refused");
        else CHECK(r == OK && c.state == c0.state && c.input_ctx.on_token_cb == icb && c.input_ctx.callback_context == &in && c.input_ctx.state == c0.input_ctx.state, "the listener is installed");
        REACH(r == OK, "input");
    } else {
        res_t r = ergo_tx_serializer_full_set_box_callbacks(&c, bcb1, bcb2, bcb3, &in);
        if (c0.state != ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED) CHECK(refused(r), "a listener outside the outputs section is refused");
        else CHECK(r == OK && c.state == c0.state && c.box_ctx.callbacks.on_type == bcb1 && c.box_ctx.callbacks.on_token == bcb2 && c.box_ctx.callbacks.on_finished == bcb3 &&
                       c.box_ctx.callbacks.context == &in && c.box_ctx.state == c0.box_ctx.state, "the listeners are installed");
        REACH(r == OK, "output");
    }
    CHECK(S.n == 0 && S.th == 0 && same_hash(&hash, &h0), "nothing is hashed");
    if (c.state != ERGO_TX_SERIALIZER_FULL_STATE_ERROR) CHECK(frame() && counts(c0.inputs_count, c0.data_inputs_count, c0.outputs_count), "counts are kept");
}
