/* Contracts: src/ergo/address.c, src/ergo/ergo_tree.c */
#pragma once
#include "stream.h"
#include "ergo/address.h"
#include "ergo/ergo_tree.h"
#include "ergo/network_id.h"

/* type+network byte, payload, first four bytes of blake2b-256 of all that */
static inline bool spec_address(const uint8_t *a, uint8_t type, uint8_t net, const uint8_t *payload, unsigned n) {
    if (a[0] != (uint8_t) (type + net)) return false;
    for (unsigned i = 0; i < n; i++)
        if (a[1 + i] != payload[i]) return false;
    if (G.oneshots != 1 || G.one_len != n + 1) return false;
    if (G_k < n + 1 && G.one_at != a[G_k]) return false;
    for (unsigned i = 0; i < 4; i++)
        if (a[1 + n + i] != G.one_digest[i]) return false;
    return true;
}
static inline void spec_compress(uint8_t out[33], const uint8_t W[65]) {
    out[0] = (W[64] & 1) ? 0x03 : 0x02;
    for (unsigned i = 0; i < 32; i++) out[1 + i] = W[1 + i];
}
static inline bool post_addr_res(bool r, uint8_t net, uint8_t fails0) {
    return r == (net <= 252 && G.fails == fails0);
}
static inline bool post_addr_pub(uint8_t net, const uint8_t *W, const uint8_t *a, bool r, uint8_t fails0) {
    uint8_t c[33];
    spec_compress(c, W);
    return post_addr_res(r, net, fails0) && (!r || spec_address(a, 1, net, c, 33));
}
bool ergo_address_from_pubkey(uint8_t network, const uint8_t public_key[static PUBLIC_KEY_LEN], uint8_t address[static P2PK_ADDRESS_LEN])
REQ(R_OK(public_key, PUBLIC_KEY_LEN) && RW_OK(address, P2PK_ADDRESS_LEN) && G.oneshots == 0)
ENS(post_addr_pub(network, public_key, address, RET, OLD(G.fails)))
ASG(UPTO(address, P2PK_ADDRESS_LEN), WHOLE(&G))
;
bool ergo_address_from_compressed_pubkey(uint8_t network, const uint8_t public_key[static COMPRESSED_PUBLIC_KEY_LEN], uint8_t address[static P2PK_ADDRESS_LEN])
REQ(R_OK(public_key, COMPRESSED_PUBLIC_KEY_LEN) && RW_OK(address, P2PK_ADDRESS_LEN) && G.oneshots == 0)
ENS(post_addr_res(RET, network, OLD(G.fails)) && (!RET || spec_address(address, 1, network, public_key, 33)))
ASG(UPTO(address, P2PK_ADDRESS_LEN), WHOLE(&G))
;
bool ergo_address_from_script_hash(uint8_t network, const uint8_t hash[static P2SH_HASH_LEN], uint8_t address[static P2SH_ADDRESS_LEN])
REQ(R_OK(hash, P2SH_HASH_LEN) && RW_OK(address, P2SH_ADDRESS_LEN) && G.oneshots == 0)
ENS(post_addr_res(RET, network, OLD(G.fails)) && (!RET || spec_address(address, 2, network, hash, 24)))
ASG(UPTO(address, P2SH_ADDRESS_LEN), WHOLE(&G))
;

/* ---- output scripts ---- */
static inline bool spec_is_p2pk_tree(const uint8_t *t) {
    return t[0] == 0x00 && t[1] == 0x08 && t[2] == 0xcd && (t[3] == 0x02 || t[3] == 0x03);
}
static const uint8_t SPEC_P2SH_HEAD[17] = {0x00, 0xea, 0x02, 0xd1, 0x93, 0xb4, 0xcb, 0xe4, 0xe3,
                                           0x01, 0x0e, 0x04, 0x00, 0x04, 0x30, 0x0e, 0x18};
static inline bool spec_is_p2sh_tree(const uint8_t *t) {
    for (unsigned i = 0; i < 17; i++)
        if (t[i] != SPEC_P2SH_HEAD[i]) return false;
    return t[41] == 0xd4 && t[42] == 0x08 && t[43] == 0x01;
}
static const uint8_t SPEC_FEE_TREE[105] = {
    0x10, 0x05, 0x04, 0x00, 0x04, 0x00, 0x0e, 0x36, 0x10, 0x02, 0x04, 0xa0, 0x0b, 0x08, 0xcd,
    0x02, 0x79, 0xbe, 0x66, 0x7e, 0xf9, 0xdc, 0xbb, 0xac, 0x55, 0xa0, 0x62, 0x95, 0xce, 0x87,
    0x0b, 0x07, 0x02, 0x9b, 0xfc, 0xdb, 0x2d, 0xce, 0x28, 0xd9, 0x59, 0xf2, 0x81, 0x5b, 0x16,
    0xf8, 0x17, 0x98, 0xea, 0x02, 0xd1, 0x92, 0xa3, 0x9a, 0x8c, 0xc7, 0xa7, 0x01, 0x73, 0x00,
    0x73, 0x01, 0x10, 0x01, 0x02, 0x04, 0x02, 0xd1, 0x96, 0x83, 0x03, 0x01, 0x93, 0xa3, 0x8c,
    0xc7, 0xb2, 0xa5, 0x73, 0x00, 0x00, 0x01, 0x93, 0xc2, 0xb2, 0xa5, 0x73, 0x01, 0x00, 0x74,
    0x73, 0x02, 0x73, 0x03, 0x83, 0x01, 0x08, 0xcd, 0xee, 0xac, 0x93, 0xb1, 0xa5, 0x73, 0x04};

static inline bool eq_bytes(const uint8_t *a, const uint8_t *b, unsigned n) {
    for (unsigned i = 0; i < n; i++)
        if (a[i] != b[i]) return false;
    return true;
}
static inline bool post_tree_gen(const uint8_t *W, const uint8_t *t) {
    uint8_t c[33];
    spec_compress(c, W);
    return t[0] == 0x00 && t[1] == 0x08 && t[2] == 0xcd && eq_bytes(t + 3, c, 33);
}
void ergo_tree_generate_p2pk(const uint8_t raw_public_key[static PUBLIC_KEY_LEN], uint8_t tree[ERGO_TREE_P2PK_LEN])
REQ(R_OK(raw_public_key, PUBLIC_KEY_LEN) && RW_OK(tree, ERGO_TREE_P2PK_LEN))
ENS(post_tree_gen(raw_public_key, tree))
ASG(UPTO(tree, ERGO_TREE_P2PK_LEN))
;
bool ergo_tree_parse_p2pk(const uint8_t tree[ERGO_TREE_P2PK_LEN], uint8_t public_key[static COMPRESSED_PUBLIC_KEY_LEN])
REQ(R_OK(tree, ERGO_TREE_P2PK_LEN) && RW_OK(public_key, COMPRESSED_PUBLIC_KEY_LEN))
ENS(RET == spec_is_p2pk_tree(tree) && (!RET || eq_bytes(public_key, tree + 3, 33)))
ASG(UPTO(public_key, COMPRESSED_PUBLIC_KEY_LEN))
;
bool ergo_tree_parse_p2sh(const uint8_t tree[ERGO_TREE_P2SH_LEN], uint8_t hash[static P2SH_HASH_LEN])
REQ(R_OK(tree, ERGO_TREE_P2SH_LEN) && RW_OK(hash, P2SH_HASH_LEN))
ENS(RET == spec_is_p2sh_tree(tree) && (!RET || eq_bytes(hash, tree + 17, 24)))
ASG(UPTO(hash, P2SH_HASH_LEN))
;
void ergo_tree_miners_fee_tree(bool is_mainnet, const uint8_t **tree, size_t *size)
REQ(RW_OK(tree, sizeof(*tree)) && RW_OK(size, sizeof(*size)))
ENS(*size == 105 && R_OK(*tree, 105) && eq_bytes(*tree, SPEC_FEE_TREE, 105))
ASG(*tree, *size)
;
