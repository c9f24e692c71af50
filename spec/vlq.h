/* Spec: unsigned variable-length quantity, 7 bits per byte, least significant group first. */
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>

/* length as a side-effect-free expression, for frame clauses */
#define VLQ_LEN(v)                                                                             \
    ((size_t) 1 + (((uint64_t) (v) >> 7) != 0) + (((uint64_t) (v) >> 14) != 0) +               \
     (((uint64_t) (v) >> 21) != 0) + (((uint64_t) (v) >> 28) != 0) + (((uint64_t) (v) >> 35) != 0) + \
     (((uint64_t) (v) >> 42) != 0) + (((uint64_t) (v) >> 49) != 0) + (((uint64_t) (v) >> 56) != 0) + \
     (((uint64_t) (v) >> 63) != 0))

static inline unsigned vlq_len(uint64_t v) {
    unsigned n = 1;
    for (unsigned i = 1; i < 10; i++)
        if ((v >> (7 * i)) != 0) n = i + 1;
    return n;
}
static inline uint8_t vlq_byte(uint64_t v, unsigned i) {
    return (uint8_t) (((v >> (7 * i)) & 0x7f) | ((i < 9 && (v >> (7 * i + 7)) != 0) ? 0x80 : 0));
}
