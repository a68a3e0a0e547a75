/* Force-included in front of every translation unit of the implementation in solver builds
 * only (never in replays).  Gives heap objects of the implementation their C type so that the
 * encoding works on fields instead of raw bytes; the semantics are those of the C library. */
#ifndef VP_WRAP_H
#define VP_WRAP_H
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <ctype.h>
/* library functions CBMC has no model of */
#define __builtin_isfinite(x) ((double)(x) - (double)(x) == 0.0)
#undef isalnum
#undef isalpha
#undef isdigit
#undef isxdigit
#undef isspace
#undef isprint
#undef isupper
#undef islower
size_t vp_strnlen(const char *s, size_t n);
char *vp_strndup(const char *s, size_t n);
char *vp_stpcpy(char *d, const char *s);
void *vp_memchr(const void *s, int c, size_t n);
#define strnlen(s, n) vp_strnlen(s, n)
#define strndup(s, n) vp_strndup(s, n)
#define stpcpy(d, s) vp_stpcpy(d, s)
#define memchr(s, c, n) vp_memchr(s, c, n)
#if !defined(VP_RAW) && defined(VP_FMU)
#include "config.h"
#include "model.h"
void *vp_memcpy(void *d, const void *s, size_t n);
void *vp_realloc(void *p, size_t n);
void *vp_calloc(size_t n, size_t s);
#define calloc(n, s) vp_calloc(n, s)
#define realloc(p, n) vp_realloc(p, n)
#define memcpy(d, s, n) vp_memcpy(d, s, n)
#endif
#endif
