/* Specification: src/ergo/tx_ser_box.c (triples; see harness/box.c) */
#pragma once
#include "../sdk/vp.h"
#include "stream.h"
#include "ergo/tx_ser_box.h"

/* ghost: what the box reported to its listener */
typedef struct {
    uint8_t types; ergo_tx_serializer_box_type_e type; uint64_t type_value;
    uint8_t tokens;             /* tokens reported so far */
    uint8_t id_at; uint64_t value; ergo_tx_serializer_box_type_e tok_type; /* of report number GB_j */
    uint8_t finishes; ergo_tx_serializer_box_type_e fin_type;
    bool failed; ergo_tx_serializer_box_result_e failed_with;
    bool wrong_ctx;
} box_cb_ghost_t;
extern box_cb_ghost_t GB;
extern uint8_t GB_j; /* watched report, unconstrained */
extern uint8_t GB_b; /* watched byte of the token id, < 32 */

static inline bool box_res_ok(ergo_tx_serializer_box_result_e r) {
    return r == ERGO_TX_SERIALIZER_BOX_RES_OK || r == ERGO_TX_SERIALIZER_BOX_RES_MORE_DATA;
}
/* every failure is reported as an error and sticks */
static inline bool box_err(const ergo_tx_serializer_box_context_t *c, ergo_tx_serializer_box_result_e r) {
    return !box_res_ok(r) && r >= ERGO_TX_SERIALIZER_BOX_RES_ERR_BAD_TOKEN_INDEX &&
           r <= ERGO_TX_SERIALIZER_BOX_RES_ERR_SMALL_CHUNK && c->state == ERGO_TX_SERIALIZER_BOX_STATE_ERROR;
}
static inline bool hash_same(const cx_blake2b_t *a, const cx_blake2b_t *b) {
    return a->active == b->active && a->len == b->len && a->at == b->at && a->inits == b->inits;
}
/* the part of the context no step may change */
static inline bool box_frame(const ergo_tx_serializer_box_context_t *c, const ergo_tx_serializer_box_context_t *c0) {
    return c->callbacks.context == c0->callbacks.context && c->callbacks.on_type == c0->callbacks.on_type &&
           c->callbacks.on_token == c0->callbacks.on_token && c->callbacks.on_finished == c0->callbacks.on_finished &&
           c->value == c0->value && c->creation_height == c0->creation_height && c->hash == c0->hash;
}
