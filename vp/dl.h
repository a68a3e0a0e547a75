/* Force-included in front of importer sources: the dynamic loader is a stand-in of the harness */
#ifndef VP_DL_H
#define VP_DL_H
#include <dlfcn.h>
void *vp_dlopen(const char *path, int flags);
void *vp_dlsym(void *handle, const char *name);
int vp_dlclose(void *handle);
#undef dlopen
#undef dlsym
#undef dlclose
#define dlopen vp_dlopen
#define dlsym vp_dlsym
#define dlclose vp_dlclose
#endif
