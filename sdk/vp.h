/* Harness vocabulary shared by the CBMC run and the native replay of a counterexample.
 *
 *  - under goto-cc (VP_CBMC): contract clauses are real, ND_* values are unconstrained and are
 *    recorded in the trace with __CPROVER_input;
 *  - natively (replay): contract clauses vanish, ND_* values are read back from the counterexample
 *    file, and CHECK(...)/PRE(...) evaluate the same C predicates against the real code. */
#pragma once
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>

#ifdef VP_CBMC

#define REQ(...) __CPROVER_requires(__VA_ARGS__)
#define ENS(...) __CPROVER_ensures(__VA_ARGS__)
#define ASG(...) __CPROVER_assigns(__VA_ARGS__)
#define RET      __CPROVER_return_value
#define OLD(x)   __CPROVER_old(x)
#define WHOLE(p) __CPROVER_object_whole(p)
#define UPTO(p, n) __CPROVER_object_upto(p, n)
#define R_OK(p, n) __CPROVER_r_ok(p, n)
#define RW_OK(p, n) __CPROVER_rw_ok(p, n)

uint8_t nondet_uint8_t(void);
uint16_t nondet_uint16_t(void);
uint32_t nondet_uint32_t(void);
uint64_t nondet_uint64_t(void);
int64_t nondet_int64_t(void);
int32_t nondet_int32_t(void);
int nondet_int(void);
size_t nondet_size_t(void);
_Bool nondet_bool(void);

#define ND_(T, f, tag) \
    ({ T _nd = f(); __CPROVER_input(tag, _nd); _nd; })
#define ND_U8(tag)   ND_(uint8_t, nondet_uint8_t, tag)
#define ND_U16(tag)  ND_(uint16_t, nondet_uint16_t, tag)
#define ND_U32(tag)  ND_(uint32_t, nondet_uint32_t, tag)
#define ND_U64(tag)  ND_(uint64_t, nondet_uint64_t, tag)
#define ND_I32(tag)  ND_(int32_t, nondet_int32_t, tag)
#define ND_I64(tag)  ND_(int64_t, nondet_int64_t, tag)
#define ND_SIZE(tag) ND_(size_t, nondet_size_t, tag)
#define ND_BOOL(tag) ND_(_Bool, nondet_bool, tag)
/* fill a uint8_t array object (an lvalue of array type) with unconstrained bytes */
#define ND_BYTES(tag, arr)                                        \
    do {                                                          \
        for (size_t _ndi = 0; _ndi < sizeof(arr); _ndi++) {       \
            uint8_t _ndb = nondet_uint8_t();                      \
            __CPROVER_input(tag, _ndb);                           \
            ((uint8_t *) (arr))[_ndi] = _ndb;                     \
        }                                                         \
    } while (0)
#define VP_ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, msg) __CPROVER_assert(c, msg)
/* an object with unconstrained contents, of which SET fixes what a check needs to know: cheaper than writing it */
#define ND_OBJECT(o) __CPROVER_havoc_object(&(o))
#define SET(lhs, nd) __CPROVER_assume((lhs) == (nd))
/* PRE/POST repeat the contract's clauses at the harness' call: in a contract run (dfcc) CBMC takes
 * them from the contract itself and they vanish here; in a triple run they are the obligation. */
#ifdef VP_TRIPLE
#define PRE(c) __CPROVER_assume(c)
#define POST(c) __CPROVER_assert(c, "post: " #c)
#else
#define PRE(c)
#define POST(c)
#endif
/* end of one branch of an exhaustive case split: nothing after it belongs to this case */
#define CASE_END __CPROVER_assume(0)
/* reachability witness: an assertion the driver expects to FAIL; if it holds the proof is vacuous */
#define REACH(c, label) do { if (c) __CPROVER_assert(0, "REACH:" label); } while (0)
/* a witness that is expected only in the cases of a unit in which k holds (read by the driver) */
#define REACH_IF(k, c, label) do { if (c) __CPROVER_assert(0, "REACH:" label "@" #k); } while (0)

#else

#define REQ(...)
#define ENS(...)
#define ASG(...)
uint64_t vp_replay_next(const char *tag);
void vp_replay_bytes(const char *tag, uint8_t *p, size_t n);
void vp_replay_fail(const char *what, const char *file, int line);
void vp_replay_skip(const char *what, const char *file, int line);
#define ND_U8(tag)   ((uint8_t) vp_replay_next(tag))
#define ND_U16(tag)  ((uint16_t) vp_replay_next(tag))
#define ND_U32(tag)  ((uint32_t) vp_replay_next(tag))
#define ND_U64(tag)  ((uint64_t) vp_replay_next(tag))
#define ND_I32(tag)  ((int32_t) vp_replay_next(tag))
#define ND_I64(tag)  ((int64_t) vp_replay_next(tag))
#define ND_SIZE(tag) ((size_t) vp_replay_next(tag))
#define ND_BOOL(tag) ((bool) (vp_replay_next(tag) != 0))
#define ND_BYTES(tag, arr) vp_replay_bytes(tag, (uint8_t *) (arr), sizeof(arr))
#define VP_ASSUME(c) do { if (!(c)) vp_replay_skip(#c, __FILE__, __LINE__); } while (0)
#define CHECK(c, msg) do { if (!(c)) vp_replay_fail(msg, __FILE__, __LINE__); } while (0)
#define ND_OBJECT(o) ((void) 0)
#define SET(lhs, nd) ((lhs) = (nd))
#define PRE(c) VP_ASSUME(c)
#define POST(c) CHECK(c, #c)
#define REACH(c, label) do { (void) (c); } while (0)
#define REACH_IF(k, c, label) REACH(c, label)
#define CASE_END return

#endif
