#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include "cx.h"
#define PIC(x) (x)
#define MIN(a, b) ((a) < (b) ? (a) : (b))
cx_err_t os_derive_bip32_no_throw(cx_curve_t curve, const uint32_t *path, size_t path_len,
                                  uint8_t raw_privkey[static 64], uint8_t *chain_code);
void os_sched_exit(int code);
