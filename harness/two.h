// Two objects in use at the same time: the model variables of the one not in use are kept aside.
#include <string.h>
static struct { void *p; size_t n; } sw_v[32]; static int sw_n, sw_at; static char sw_mem[2][1 << 17];
static void sw_begin(void) { sw_n = sw_at = 0; }
static void sw_reg(void *p, size_t n) { sw_v[sw_n].p = p; sw_v[sw_n++].n = n; }
#define SW(v) sw_reg(&(v), sizeof (v))
static void sw_to(int w)
{
    size_t o = 0; if (w == sw_at) return;
    for (int i = 0; i < sw_n; i++) { memcpy(sw_mem[sw_at] + o, sw_v[i].p, sw_v[i].n); memcpy(sw_v[i].p, sw_mem[w] + o, sw_v[i].n); o += sw_v[i].n; }
    sw_at = w; mc_note("[object %d]", w);
}
