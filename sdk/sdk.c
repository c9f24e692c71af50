/* Executable stand-ins for the Ledger SDK calls (trusted base: see DESIGN.md).  Every call that can
 * fail in the SDK may fail here, and every value the SDK computes is unconstrained but recorded. */
#include "vp_ghost.h"
#include "io.h"
#include "os.h"
#include "ux.h"
#include "format.h"
#include "base58.h"
#include "bip32.h"
#include "parser.h"

size_t G_k;
vp_ghost_t G;
vp_keys_t GK;
vp_math_t GM;
vp_disp_t GD;
uint8_t G_io_apdu_buffer[IO_APDU_BUFFER_SIZE];
ux_state_t G_ux;
const bagl_icon_details_t C_icon_validate_14 = {1}, C_icon_crossmark = {2}, C_icon_eye = {3},
                          C_icon_processing = {4}, C_icon_warning = {5}, C_app_logo = {6},
                          C_icon_certificate = {7}, C_icon_dashboard_x = {8}, C_icon_back = {9};

void vp_ghost_init(void) {
    static const vp_ghost_t g0;
    static const vp_keys_t k0;
    static const vp_math_t m0;
    static const vp_disp_t d0;
    static const ux_state_t u0;
    G = g0;
    GK = k0;
    GM = m0;
    GD = d0;
    G_ux = u0;
    G_k = ND_SIZE("G_k");
    VP_ASSUME(G_k <= 0xFFFFF); /* no stream in one unit is longer than 2^20 bytes */
    G.can_fail = ND_BOOL("can_fail");
    GK.wi = ND_U8("GK_wi");
    VP_ASSUME(GK.wi < 64);
}

static bool vp_fail(void) {
    if (G.can_fail && ND_BOOL("sdk_fail")) {
        G.fails = vp_inc(G.fails);
        return true;
    }
    return false;
}

/* ---- hashing ---- */
cx_err_t cx_blake2b_init_no_throw(cx_blake2b_t *hash, size_t out_len) {
    CHECK(out_len == 256, "blake2b is initialised for a 256-bit digest");
    if (vp_fail()) return CX_INTERNAL_ERROR;
    hash->info.md_type = CX_BLAKE2B;
    hash->active = true;
    hash->len = 0;
    hash->inits = vp_inc(hash->inits);
    return CX_OK;
}

cx_err_t cx_hash_no_throw(cx_hash_t *h, uint32_t mode, const uint8_t *in, size_t len, uint8_t *out,
                          size_t out_len) {
    cx_blake2b_t *hash = (cx_blake2b_t *) h;
    CHECK(hash->active, "hash context is live when used");
    bool failed = vp_fail(); /* what a failed update leaves in the context is meaningless */
#ifdef VP_CBMC
    if (len > 0) CHECK(R_OK(in, len), "hashed bytes are readable");
#endif
    if (G_k >= hash->len && G_k - hash->len < len) hash->at = in[G_k - hash->len];
    hash->len += len;
    if (failed) return CX_INTERNAL_ERROR;
    if (mode & CX_LAST) {
        CHECK(out_len == CX_BLAKE2B_256_SIZE, "digest buffer is 32 bytes");
        for (int i = 0; i < 32; i++) {
            uint8_t b = ND_U8("digest");
            G.digest[i] = b;
            out[i] = b;
        }
        G.finals = vp_inc(G.finals);
        G.fin_len = hash->len;
        G.fin_at = hash->at;
        G.fin_hash = hash;
        hash->active = false;
    }
    return CX_OK;
}

cx_err_t cx_blake2b_256_hash(const uint8_t *data, size_t len, uint8_t out[static CX_BLAKE2B_256_SIZE]) {
    if (vp_fail()) return CX_INTERNAL_ERROR;
#ifdef VP_CBMC
    CHECK(R_OK(data, len), "hashed bytes are readable");
#endif
    G.oneshots = vp_inc(G.oneshots);
    G.one_len = len;
    if (G_k < len) G.one_at = data[G_k];
    for (int i = 0; i < 32; i++) {
        uint8_t b = ND_U8("digest");
        G.one_digest[i] = b;
        out[i] = b;
    }
    return CX_OK;
}

size_t cx_hmac_sha256(const uint8_t *key, size_t key_len, const uint8_t *in, size_t len, uint8_t *mac,
                      size_t mac_len) {
    CHECK(mac_len == CX_SHA256_SIZE, "MAC buffer is 32 bytes");
#ifdef VP_CBMC
    CHECK(R_OK(key, key_len), "MAC key is readable");
    CHECK(R_OK(in, len), "MACed bytes are readable");
#endif
    G.hmacs = vp_inc(G.hmacs);
    G.hmac_key = key;
    G.hmac_key_len = key_len;
    G.hmac_len = len;
    if (G_k < len) G.hmac_at = in[G_k];
    for (int i = 0; i < 32; i++) {
        uint8_t b = ND_U8("mac");
        G.hmac_mac[i] = b;
        mac[i] = b;
    }
    return 32;
}

/* ---- randomness ---- */
void cx_rng_no_throw(uint8_t *buffer, size_t len) {
    G.rngs = vp_inc(G.rngs);
    bool again = len == 1 && G.rng_len == 1 && G.rng_ptr != NULL;
    G.rng_ptr = buffer;
    G.rng_len = len;
    for (size_t i = 0; i < len; i++) {
        uint8_t b = ND_U8("rng");
        buffer[i] = b;
        if (again) VP_ASSUME(b != 0 && b != G.rng_avoid);
        if (i < 32) G.rng_last[i] = b;
    }
}

/* ---- I/O ---- */
int io_send_response_buffer(const buffer_t *rdata, uint16_t sw) {
    G.sends = vp_inc(G.sends);
    G.sw = sw;
    G.send_len = 0;
    if (rdata != NULL) {
        G.send_len = rdata->size - rdata->offset;
#ifdef VP_CBMC
        CHECK(R_OK(rdata->ptr + rdata->offset, G.send_len), "reply bytes are readable");
#endif
        CHECK(G.send_len <= IO_APDU_BUFFER_SIZE - 2, "reply fits the APDU buffer");
        if (G_k < G.send_len) G.send_at = rdata->ptr[rdata->offset + G_k];
    }
    G.send_ret = G.can_fail && ND_BOOL("io_fail") ? -1 : 0;
    return G.send_ret;
}

/* ---- memory ---- */
/* the watched byte (any byte) of a secret is overwritten */
static void vp_wiped(bool *live, const void *secret, size_t size, const uint8_t *p, size_t n) {
    uintptr_t a = (uintptr_t) secret + GK.wi % size, b = (uintptr_t) p;
    if (*live && b <= a && a - b < n) *live = false;
}
void explicit_bzero(void *p, size_t n) {
    uint8_t *q = p;
#ifdef VP_CBMC
    CHECK(RW_OK(p, n), "wiped region is writable");
#endif
    memset(q, 0, n);
    vp_wiped(&GK.raw_live, GK.raw, 64, q, n);
    vp_wiped(&GK.key_live, GK.key, sizeof(cx_ecfp_256_private_key_t), q, n);
    vp_wiped(&GK.prod_live, GK.prod, 32, q, n);
    vp_wiped(&GK.chain_live, GK.chain, 32, q, n);
}

/* ---- UX ---- */
void ux_layout_bn_init(unsigned int s) { (void) s; }
void ux_layout_bnnn_paging_init(unsigned int s) { (void) s; }
void ux_layout_pb_init(unsigned int s) { (void) s; }
void ux_layout_pn_init(unsigned int s) { (void) s; }
void ux_layout_pnn_init(unsigned int s) { (void) s; }
void ux_flow_init(unsigned int stack_slot, const ux_flow_step_t *const *steps, const ux_flow_step_t *const start) {
    (void) stack_slot;
    (void) start;
    G.flows = vp_inc(G.flows);
    G.flow_steps = steps;
}
void ux_flow_next(void) { G.nexts = vp_inc(G.nexts); }
void ux_flow_relayout(void) { G.relayouts = vp_inc(G.relayouts); }
unsigned int ux_stack_push(void) {
    G_ux.stack_count = 1;
    return 1;
}
void os_sched_exit(int code) { (void) code; }
