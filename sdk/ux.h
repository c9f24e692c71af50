/* Ledger SDK UX flow API (bagl), as far as the application uses it.  The step macros build the same
 * objects as the SDK's: a step with a validate flow whose single step runs the action in its init. */
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <string.h>
#include "glyphs.h"

typedef struct ux_flow_step_s {
    void (*init)(unsigned int stack_slot);
    const void *params;
    const struct ux_flow_step_s *const *validate_flow;
    const struct ux_flow_step_s *const *error_flow;
} ux_flow_step_t;

#define FLOW_END_STEP ((void *) 0xFFFFFFFFUL)
#define FLOW_LOOP     ((void *) 0xFFFFFFFEUL)

typedef struct { const char *line1; const char *line2; } ux_layout_bn_params_t;
typedef struct { const char *title; const char *text; } ux_layout_bnnn_paging_params_t;
typedef struct { const bagl_icon_details_t *icon; const char *line1; } ux_layout_pb_params_t;
typedef struct { const bagl_icon_details_t *icon; const char *line1; } ux_layout_pn_params_t;
typedef struct { const bagl_icon_details_t *icon; const char *line1; const char *line2; } ux_layout_pnn_params_t;
void ux_layout_bn_init(unsigned int s);
void ux_layout_bnnn_paging_init(unsigned int s);
void ux_layout_pb_init(unsigned int s);
void ux_layout_pn_init(unsigned int s);
void ux_layout_pnn_init(unsigned int s);

#define UX_FLOW_CALL(name, ...)                                                   \
    void name##_init(unsigned int stack_slot) {                                   \
        (void) stack_slot;                                                        \
        __VA_ARGS__;                                                              \
    }                                                                             \
    const ux_flow_step_t name##_step = {name##_init, NULL, NULL, NULL};           \
    const ux_flow_step_t *const name[] = {&name##_step, FLOW_END_STEP};
#define UX_STEP_NOCB(stepname, layoutkind, ...)                                   \
    const ux_layout_##layoutkind##_params_t stepname##_val = __VA_ARGS__;         \
    const ux_flow_step_t stepname = {ux_layout_##layoutkind##_init, &stepname##_val, NULL, NULL}
#define UX_STEP_CB(stepname, layoutkind, validate_cb, ...)                        \
    UX_FLOW_CALL(stepname##_validate, {validate_cb;})                             \
    const ux_layout_##layoutkind##_params_t stepname##_val = __VA_ARGS__;         \
    const ux_flow_step_t stepname = {ux_layout_##layoutkind##_init, &stepname##_val, \
                                     stepname##_validate, NULL}
#define UX_STEP_INIT(stepname, validate_flow, error_flow, ...)                    \
    void stepname##_init(unsigned int stack_slot) {                               \
        (void) stack_slot;                                                        \
        __VA_ARGS__;                                                              \
    }                                                                             \
    const ux_flow_step_t stepname = {stepname##_init, NULL, validate_flow, error_flow}

#define UX_STACK_SLOT_COUNT 1
typedef struct {
    const ux_flow_step_t *const *steps;
    unsigned short index;
    unsigned short prev_index;
    unsigned short length;
} ux_flow_state_t;
typedef struct {
    unsigned char stack_count;
    ux_flow_state_t flow_stack[UX_STACK_SLOT_COUNT];
} ux_state_t;
extern ux_state_t G_ux;
void ux_flow_init(unsigned int stack_slot, const ux_flow_step_t *const *steps, const ux_flow_step_t *const start);
void ux_flow_next(void);
void ux_flow_relayout(void);
unsigned int ux_stack_push(void);
