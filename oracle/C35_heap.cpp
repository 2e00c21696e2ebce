// the replacement heap functions, in a translation unit of their own so that the optimiser cannot look into them
#include <stdlib.h>
#include <stddef.h>
#include <new>
static const size_t MAXB = 1 << 16; static struct { void *p; size_t n; } g_blk[MAXB]; size_t g_nb = 0; bool g_on = false; size_t g_bad = 0, g_seen = 0, g_badat = 0, g_badn = 0;
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (g_on && g_nb < MAXB) { g_blk[g_nb].p = p; g_blk[g_nb].n = n; g_nb++; } return p; }
static void __attribute__((noinline)) look(void *p) { if (!g_on || !p) return; for (size_t i = 0; i < g_nb; i++) if (g_blk[i].p == p) { g_seen++; volatile unsigned char *q = (volatile unsigned char*)p; for (size_t k = 0; k < g_blk[i].n; k++) if (q[k]) { g_bad++; g_badat = k; g_badn = g_blk[i].n; break; } g_blk[i] = g_blk[--g_nb]; return; } }
void operator delete(void *p) noexcept { look(p); free(p); }
void operator delete(void *p, size_t) noexcept { look(p); free(p); }
