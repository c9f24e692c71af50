/* Contracts: src/common/bip32_ext.[ch] */
#pragma once
#include "../sdk/vp.h"
#include "common/bip32_ext.h"
#include "constants.h"
#define HARD(x) (((x) >> 31) != 0)

/* what each kind of path must look like, component by component */
static inline bool spec_path_ok(const uint32_t *p, uint8_t n, uint32_t purpose, uint32_t coin, int vtype) {
    if (n < 3 || p[0] != purpose || p[1] != coin) return false;
    bool all_hard = true, tail_soft = true;
    for (unsigned i = 2; i < 10; i++) {
        if (i < n && !HARD(p[i])) all_hard = false;
        if (i >= 4 && i < n && HARD(p[i])) tail_soft = false;
    }
    switch (vtype) {
        case BIP32_PATH_VALIDATE_COIN: return true;
        case BIP32_PATH_VALIDATE_COIN_GE2_HARD: return all_hard;
        case BIP32_PATH_VALIDATE_ACCOUNT_E3: return n == 3 && all_hard;
        case BIP32_PATH_VALIDATE_ACCOUNT_GE3: return all_hard;
        case BIP32_PATH_VALIDATE_ADDRESS_E5: return n == 5 && HARD(p[2]) && p[3] <= 1 && tail_soft;
        case BIP32_PATH_VALIDATE_ADDRESS_GE5: return n >= 5 && HARD(p[2]) && p[3] <= 1 && tail_soft;
    }
    return false;
}
static inline bool spec_path_eq(const uint32_t *a, uint8_t n, const uint32_t *b, uint8_t m) {
    if (n != m) return false;
    for (unsigned i = 0; i < 10; i++)
        if (i < n && a[i] != b[i]) return false;
    return true;
}
static inline bool spec_same_account(const uint32_t *a, uint8_t n, const uint32_t *b, uint8_t m) {
    return n >= 3 && m >= 3 && a[0] == b[0] && a[1] == b[1] && a[2] == b[2];
}
bool bip32_path_validate(const uint32_t *bip32_path, uint8_t bip32_path_len, uint32_t type, uint32_t coin,
                         bip32_path_validation_type_e vtype)
REQ(bip32_path_len <= MAX_BIP32_PATH && R_OK(bip32_path, MAX_BIP32_PATH * sizeof(uint32_t)))
REQ((unsigned) vtype <= BIP32_PATH_VALIDATE_ADDRESS_GE5)
ENS(RET == spec_path_ok(bip32_path, bip32_path_len, type, coin, vtype))
ASG()
;
