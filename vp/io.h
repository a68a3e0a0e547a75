/* Force-included in front of the implementation (solver and replay builds): file access goes
 * to a recording stand-in defined by the harness, so no real file is touched. */
#ifndef VP_IO_H
#define VP_IO_H
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
FILE *vp_fopen(const char *path, const char *mode);
int vp_fgetc(FILE *f);
int vp_fclose(FILE *f);
size_t vp_fread(void *b, size_t s, size_t n, FILE *f);
#define fread vp_fread
#define fopen vp_fopen
#define fgetc vp_fgetc
#undef getc
#define getc vp_fgetc
#define fclose vp_fclose
#ifndef VP_REPLAY
/* bounded copies: stop at the terminator, the zero fill behind it is one write */
static inline char *vp_strncpy(char *d, const char *s, size_t n) {
    size_t i = 0;
    while (i < n && s[i]) { d[i] = s[i]; i++; }
    if (i < n) d[i] = '\0';
    return d;
}
static inline char *vp_strncat(char *d, const char *s, size_t n) {
    size_t k = strlen(d), i = 0;
    while (i < n && s[i]) { d[k + i] = s[i]; i++; }
    d[k + i] = '\0';
    return d;
}
/* two hexadecimal digits; any other text gives any value */
long vp_any_long(void);
static inline int vp_hex(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static inline long vp_strtol(const char *s, char **e, int base) {
    if (base == 16 && e == NULL && vp_hex(s[0]) >= 0 && vp_hex(s[1]) >= 0 && s[2] == 0) return vp_hex(s[0]) * 16 + vp_hex(s[1]);
    return vp_any_long();
}
static inline char *vp_strdup(const char *s) {
    size_t n = strlen(s) + 1;
    char *d = malloc(n);
    if (d) memcpy(d, s, n);
    return d;
}
#undef strdup
#define strdup vp_strdup
#define strtol vp_strtol
#define strtoul(s, e, b) ((unsigned long)vp_strtol(s, e, b))
#define strncpy vp_strncpy
#define strncat vp_strncat
#endif
#endif
