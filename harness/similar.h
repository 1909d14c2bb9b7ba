/* Pairs of names that are nearly the same: only their whole text tells them apart. */
#include <string.h>
#define SIM_FAMS 6
static const int sim_len[] = { 0, 1, 6, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1022, 1023, 1024, 4095, 4096 };
static int sim_n(int max) { int n = 0; while (n < (int)(sizeof sim_len / sizeof *sim_len) && sim_len[n] <= max) n++; return n; }
/* two names sharing n characters: differing in the case of the last, in the last, in length, in the first, in the case of the first, in a high byte */
static void sim_pair(int fam, int n, char *a, char *b)
{
    memset(a, 'n', (size_t)n); memset(b, 'n', (size_t)n); a[n] = b[n] = 0; 
    switch (fam) { case 0: strcat(a, "x"); strcat(b, "X"); break; case 1: strcat(a, "x"); strcat(b, "y"); break; case 2: strcat(a, "x"); strcat(b, "xx"); break; case 3: strcat(a, "z"); strcat(b, "z"); a[0] = 'v'; b[0] = 'w'; break; case 4: strcat(a, "z"); strcat(b, "z"); a[0] = 'v'; b[0] = 'V'; break; default: strcat(a, "i"); strcat(b, "\xe9"); break; }
}
