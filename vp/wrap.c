/* Library models for solver builds, see wrap.h */
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
size_t vp_strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char *vp_strndup(const char *s, size_t n) {
    size_t l = vp_strnlen(s, n);
    char *p = malloc(l + 1);
    if (p) { for (size_t i = 0; i < l; i++) p[i] = s[i]; p[l] = 0; }
    return p;
}
char *vp_stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
void *vp_memchr(const void *s, int c, size_t n) {
    for (size_t i = 0; i < n; i++) if (((const unsigned char *)s)[i] == (unsigned char)c) return (char *)s + i;
    return NULL;
}
#if !defined(VP_RAW) && defined(VP_FMU)
#include "config.h"
#include "model.h"
void *vp_memcpy(void *d, const void *s, size_t n) {
    if (n == sizeof(ModelInstance)) *(ModelInstance *)d = *(const ModelInstance *)s;
    else if (n == sizeof(ModelData)) *(ModelData *)d = *(const ModelData *)s;
#if defined(MAX_CONTINUOUS_STATES) || defined(MAX_EVENT_INDICATORS)
    else if (n % sizeof(double) == 0 && n <= 8 * sizeof(double)) {
        for (size_t i = 0; i < n / sizeof(double); i++) ((double *)d)[i] = ((const double *)s)[i];
    }
#endif
    else {
        /* no larger object exists in the implementation; a replay decides whether this is an overflow */
        __CPROVER_assert(n <= 128, "VPCHECK memory is copied within bounds");
        __CPROVER_assume(n <= 128);
        for (size_t i = 0; i < 128; i++) if (i < n) ((char *)d)[i] = ((const char *)s)[i];
    }
    return d;
}
void *vp_buffer(size_t n) { if (n == sizeof(ModelInstance)) { void *p = __CPROVER_allocate(sizeof(ModelInstance), 0); return p; } return malloc(n); }
void *vp_calloc(size_t n, size_t s) {
    if (n == 1 && s == sizeof(ModelInstance)) return __CPROVER_allocate(sizeof(ModelInstance), 1);
    return __CPROVER_allocate(n * s, 1);
}
void *vp_realloc(void *p, size_t n) {
    void *q = (n == sizeof(ModelInstance)) ? __CPROVER_allocate(sizeof(ModelInstance), 0) : malloc(n);
    if (q && p) {
        size_t old = __CPROVER_OBJECT_SIZE(p);
        vp_memcpy(q, p, old < n ? old : n);
        free(p);
    }
    return q;
}
#endif
