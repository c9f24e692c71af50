/* libc memory functions as byte loops (CBMC run only; the replay uses the host libc). */
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <string.h>
#ifdef VP_CBMC
typedef struct { uint8_t b[32]; } vp_b32;
void *memmove(void *d, const void *s, size_t n) {
    uint8_t *dd = d;
    const uint8_t *ss = s;
    if (d == s) return d; /* nothing moves */
    if (n == 32) { /* an id in one step */
        vp_b32 t = *(const vp_b32 *) s;
        *(vp_b32 *) d = t;
        return d;
    }
    if (__CPROVER_POINTER_OBJECT(d) == __CPROVER_POINTER_OBJECT(s) &&
        __CPROVER_POINTER_OFFSET(d) > __CPROVER_POINTER_OFFSET(s)) {
        for (size_t i = n; i > 0; i--) dd[i - 1] = ss[i - 1];
    } else {
        for (size_t i = 0; i < n; i++) dd[i] = ss[i];
    }
    return d;
}
void *memcpy(void *d, const void *s, size_t n) {
    uint8_t *dd = d;
    const uint8_t *ss = s;
    for (size_t i = 0; i < n; i++) dd[i] = ss[i];
    return d;
}
int memcmp(const void *a, const void *b, size_t n) {
    const uint8_t *x = a, *y = b;
    for (size_t i = 0; i < n; i++)
        if (x[i] != y[i]) return (int) x[i] - (int) y[i];
    return 0;
}
size_t strlen(const char *s) {
    size_t n = 0;
    while (s[n]) n++;
    return n;
}
char *strncpy(char *d, const char *s, size_t n) {
    bool end = false;
    for (size_t i = 0; i < n; i++) {
        if (!end && s[i] == 0) end = true;
        d[i] = end ? 0 : s[i];
    }
    return d;
}
/* the conversions the application uses: %d (0..999), %08x, %s */
static size_t put(char *d, size_t n, size_t at, char c) {
    if (at + 1 < n) d[at] = c;
    return at + 1;
}
int snprintf(char *d, size_t n, const char *f, ...) {
    va_list a;
    va_start(a, f);
    size_t at = 0;
    for (size_t i = 0; f[i]; i++) {
        if (f[i] != '%') {
            at = put(d, n, at, f[i]);
        } else if (f[i + 1] == 'd') {
            int v = va_arg(a, int);
            __CPROVER_assert(v >= 0 && v < 1000, "formatted number is in the range of the stand-in");
            if (v >= 100) at = put(d, n, at, (char) ('0' + v / 100));
            if (v >= 10) at = put(d, n, at, (char) ('0' + v / 10 % 10));
            at = put(d, n, at, (char) ('0' + v % 10));
            i++;
        } else if (f[i + 1] == '0' && f[i + 2] == '8' && f[i + 3] == 'x') {
            unsigned v = va_arg(a, unsigned);
            for (int k = 28; k >= 0; k -= 4) at = put(d, n, at, "0123456789abcdef"[(v >> k) & 15]);
            i += 3;
        } else {
            __CPROVER_assert(0, "conversion is known to the stand-in");
        }
    }
    va_end(a);
    if (n) d[at < n ? at : n - 1] = 0;
    return (int) at;
}
#endif
