/* memory for the implementation: may be refused (VP_FAIL), blocks in use are counted */
#ifndef H_ALLOC_H
#define H_ALLOC_H
#include <stdlib.h>
#include <string.h>
static int live, refused, allocs;
static bool refuse(void) {
    allocs++;
#ifdef VP_MASK
    if ((VP_MASK >> (allocs - 1)) & 1) { refused++; return true; }
#elif defined(VP_FAIL)
    if (in_bool()) { refused++; return true; }
#endif
    return false;
}
void *vpa_malloc(size_t n) { if (refuse()) return NULL; live++; return malloc(n); }
void *vpa_calloc(size_t n, size_t s) { if (refuse()) return NULL; live++; return calloc(n, s); }
void *vpa_realloc(void *p, size_t n) { if (refuse()) return NULL; if (!p) live++; return realloc(p, n); }
char *vpa_strdup(const char *s) {
    if (refuse()) return NULL;
    live++;
    size_t n = 0;
    while (s[n]) n++;
    char *d = malloc(n + 1);
    for (size_t i = 0; i <= n; i++) d[i] = s[i];
    return d;
}
void vpa_free(void *p) { if (p) { live--; free(p); } }
#endif
