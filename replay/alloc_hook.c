#include <stdlib.h>
unsigned long long vp_fail_mask = 0;   /* bit k: allocation number k fails */
int vp_count = 0;
long vp_live = 0;
static int refuse(void) { int k = vp_count++; return k < 64 && ((vp_fail_mask >> k) & 1); }
void *vp_malloc(size_t n) { void *p; if (refuse()) return 0; p = malloc(n); if (p) ++vp_live; return p; }
void *vp_calloc(size_t a, size_t b) { void *p; if (refuse()) return 0; p = calloc(a, b); if (p) ++vp_live; return p; }
void *vp_realloc(void *q, size_t n) { void *p; if (refuse()) return 0; p = realloc(q, n); if (p && !q) ++vp_live; return p; }
void vp_free(void *p) { if (p) --vp_live; free(p); }
