/* Forced into the compilation of tarjan.c: allocation calls go through counters
   that can be told to fail. */
#include <stdlib.h>
#include <string.h>
void *vp_malloc(size_t n); void *vp_calloc(size_t a, size_t b); void *vp_realloc(void *p, size_t n); void vp_free(void *p);
#define malloc vp_malloc
#define calloc vp_calloc
#define realloc vp_realloc
#define free vp_free
