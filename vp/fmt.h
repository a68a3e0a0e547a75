/* Force-included in front of importer sources in solver builds: formatted output goes to the model in h/fmt.h.
 * Replays use the C library. */
#ifndef VP_FMT_H
#define VP_FMT_H
#ifndef VP_REPLAY
#include <stdio.h>
#include <stdarg.h>
#include <stddef.h>
int vp_vsnprintf(char *b, size_t n, const char *f, va_list a);
int vp_snprintf(char *b, size_t n, const char *f, ...);
int vp_sprintf(char *b, const char *f, ...);
int vp_noprint(void);
#include <string.h>
size_t vp_strlen(const char *s);
#undef strlen
#define strlen vp_strlen
#undef vsnprintf
#undef snprintf
#undef sprintf
#undef vfprintf
#undef fputs
#define vsnprintf vp_vsnprintf
#define snprintf vp_snprintf
#define sprintf vp_sprintf
#define vfprintf(f, m, a) vp_noprint()
#define fputs(s, f) vp_noprint()
#endif
#endif
