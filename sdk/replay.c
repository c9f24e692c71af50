/* Native replay: feeds a counterexample's recorded inputs back to the same harness, per tag. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "vp.h"

typedef struct { char tag[32]; uint64_t v; int used; } ent_t;
static ent_t *E;
static size_t N;

/* a blank in a tag is an underscore in the file */
static int same_tag(const char *a, const char *b) {
    size_t i = 0;
    for (; a[i] && b[i] && i < 31; i++)
        if (a[i] != (b[i] == ' ' ? '_' : b[i])) return 0;
    return i == 31 || a[i] == b[i];
}
uint64_t vp_replay_next(const char *tag) {
    for (size_t i = 0; i < N; i++)
        if (!E[i].used && same_tag(E[i].tag, tag)) {
            E[i].used = 1;
            return E[i].v;
        }
    return 0;
}
void vp_replay_bytes(const char *tag, uint8_t *p, size_t n) {
    for (size_t i = 0; i < n; i++) p[i] = (uint8_t) vp_replay_next(tag);
}
void vp_replay_fail(const char *what, const char *file, int line) {
    printf("REPLAY-FAIL: %s (%s:%d)\n", what, file, line);
    exit(1);
}
void vp_replay_skip(const char *what, const char *file, int line) {
    printf("REPLAY-SKIP: assumption not met: %s (%s:%d)\n", what, file, line);
    exit(77);
}
void VP_ENTRY(void);
int main(int argc, char **argv) {
    FILE *f = argc > 1 ? fopen(argv[1], "r") : NULL;
    if (f) {
        char tag[64];
        unsigned long long v;
        size_t cap = 0;
        while (fscanf(f, "%63s %llu", tag, &v) == 2) {
            if (N == cap) E = realloc(E, (cap = cap ? 2 * cap : 256) * sizeof(*E));
            snprintf(E[N].tag, sizeof(E[N].tag), "%s", tag);
            E[N].v = v;
            E[N].used = 0;
            N++;
        }
        fclose(f);
    }
    VP_ENTRY();
    printf("REPLAY-OK: every checked condition held\n");
    return 0;
}
