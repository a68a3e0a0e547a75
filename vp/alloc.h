/* Force-included in front of the implementation (solver and replay builds): memory comes from the harness,
 * which may refuse it and counts the blocks in use. */
#ifndef VP_ALLOC_H
#define VP_ALLOC_H
#include <stdlib.h>
#include <string.h>
void *vpa_malloc(size_t n);
void *vpa_calloc(size_t n, size_t s);
void *vpa_realloc(void *p, size_t n);
char *vpa_strdup(const char *s);
void vpa_free(void *p);
#undef malloc
#undef calloc
#undef realloc
#undef strdup
#undef free
#define malloc vpa_malloc
#define calloc vpa_calloc
#define realloc vpa_realloc
#define strdup vpa_strdup
#define free vpa_free
#endif
