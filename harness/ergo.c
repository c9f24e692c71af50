/* Units: src/ergo/address.c, src/ergo/ergo_tree.c */
#include "vp_ghost.h"
#include "ergo_c.h"

static uint8_t W[65], C[33], H[24], A[38], T[44], PK[33];

void h_addr_pub(void) {
    vp_ghost_init();
    ND_BYTES("W", W);
    uint8_t net = ND_U8("net"), f0 = G.fails;
    bool r = ergo_address_from_pubkey(net, W, A);
    POST(post_addr_pub(net, W, A, r, f0));
    REACH(r && net == 0x10, "made"); REACH(!r && net > 252, "bad network"); REACH(!r && net == 0, "hash failure");
}
void h_addr_cpub(void) {
    vp_ghost_init();
    ND_BYTES("C", C);
    uint8_t net = ND_U8("net"), f0 = G.fails;
    bool r = ergo_address_from_compressed_pubkey(net, C, A);
    POST(post_addr_res(r, net, f0) && (!r || spec_address(A, 1, net, C, 33)));
    REACH(r && net == 0x10, "made"); REACH(!r && net > 252, "bad network");
}
void h_addr_script(void) {
    vp_ghost_init();
    ND_BYTES("H", H);
    uint8_t net = ND_U8("net"), f0 = G.fails;
    bool r = ergo_address_from_script_hash(net, H, A);
    POST(post_addr_res(r, net, f0) && (!r || spec_address(A, 2, net, H, 24)));
    REACH(r && net == 0x10, "made"); REACH(!r && net > 252, "bad network");
}
void h_tree_gen(void) {
    ND_BYTES("W", W);
    ergo_tree_generate_p2pk(W, T);
    POST(post_tree_gen(W, T));
    REACH(true, "made");
}
void h_tree_lemma(void) {
    ND_BYTES("W", W);
    ergo_tree_generate_p2pk(W, T);
    /* lemma: the script made for a key parses back to that key, in both address forms */
    CHECK(ergo_tree_parse_p2pk(T, PK), "own pay-to-public-key script is recognised");
    spec_compress(C, W);
    CHECK(eq_bytes(PK, C, 33), "and gives the same key back");
    REACH(true, "made");
}
void h_parse_p2pk(void) {
    ND_BYTES("T", T);
    bool r = ergo_tree_parse_p2pk(T, PK);
    POST(r == spec_is_p2pk_tree(T) && (!r || eq_bytes(PK, T + 3, 33)));
    REACH(r, "recognised"); REACH(!r, "other");
}
void h_parse_p2sh(void) {
    ND_BYTES("T", T);
    bool r = ergo_tree_parse_p2sh(T, H);
    POST(r == spec_is_p2sh_tree(T) && (!r || eq_bytes(H, T + 17, 24)));
    REACH(r, "recognised"); REACH(!r, "other");
}
void h_fee_tree(void) {
    const uint8_t *t = NULL;
    size_t n = 0;
    ergo_tree_miners_fee_tree(ND_BOOL("mainnet"), &t, &n);
    POST(n == 105 && eq_bytes(t, SPEC_FEE_TREE, 105));
    REACH(true, "fee tree");
}
