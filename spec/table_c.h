/* Contracts: src/ergo/tx_ser_table.[ch] */
#pragma once
#include "stream.h"
#include "ergo/tx_ser_table.h"
#include "gve_c.h"

static inline bool table_res_ok(ergo_tx_serializer_table_result_e r) {
    return r == ERGO_TX_SERIALIZER_TABLE_RES_OK || r == ERGO_TX_SERIALIZER_TABLE_RES_MORE_DATA;
}
static inline bool post_table_hash(const ergo_tx_serializer_table_context_t *c, const cx_blake2b_t *h,
                                   ergo_tx_serializer_table_result_e r, cx_blake2b_t h0, uint8_t fails0) {
    if (G.fails != fails0) return !table_res_ok(r);
    st_t s;
    st_begin(&s, &h0);
    st_vlq(&s, c->distinct_tokens_count);
    for (unsigned i = 0; i < TOKEN_MAX_COUNT; i++)
        if (i < c->distinct_tokens_count) st_bytes(&s, c->tokens_table->tokens[i], 32);
    return r == ERGO_TX_SERIALIZER_TABLE_RES_OK && st_is(&s, h);
}
