#ifndef IO_STUB_H
#define IO_STUB_H
/* recording stand-in for the resource file */
static char io_path[64];
static int io_tries, io_opens, io_closes, io_reads, io_char = 'a';
static bool io_fail;
static int io_handle;
FILE *vp_fopen(const char *path, const char *mode) {
    CHECK(mode[0] == 'r' && mode[1] != '+', "the file is opened for reading");
    io_tries++;
    size_t i = 0;
    while (path[i] && i + 1 < sizeof(io_path)) { io_path[i] = path[i]; i++; }
    io_path[i] = '\0';
    if (io_fail) return NULL;
    io_opens++;
    return (FILE *)(void *)&io_handle;
}
int vp_fgetc(FILE *f) { CHECK((void *)f == (void *)&io_handle && io_opens == io_closes + 1, "read from the opened file"); io_reads++; return io_char; }
size_t vp_fread(void *b, size_t s, size_t n, FILE *f) { if (s == 0 || n == 0) return 0; ((char *)b)[0] = (char)vp_fgetc(f); return s == 1 ? 1 : 0; }
int vp_fclose(FILE *f) { CHECK((void *)f == (void *)&io_handle && io_opens == io_closes + 1, "close of the opened file"); io_closes++; return 0; }
#endif
