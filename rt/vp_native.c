#include "vp.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static uint64_t *draws; static size_t ndraws, pos;
static uint64_t draw(void) { return pos < ndraws ? draws[pos++] : 0; }
uint8_t vp_u8(void) { return (uint8_t)draw(); }
uint16_t vp_u16(void) { return (uint16_t)draw(); }
uint32_t vp_u32(void) { return (uint32_t)draw(); }
uint64_t vp_u64(void) { return draw(); }
void vp_bytes(void *dst, uint32_t n) { uint8_t *d = dst; for (uint32_t i = 0; i < n; i++) d[i] = vp_u8(); }
double vp_f64(void) { uint64_t u = draw(); double d; memcpy(&d, &u, 8); return d; }
float vp_f32(void) { uint32_t u = (uint32_t)draw(); float d; memcpy(&d, &u, 4); return d; }
int32_t vp_range(int32_t lo, int32_t hi) {
  int32_t v = (int32_t)draw();
  if (v < lo || v > hi) { printf("VP_ASSUME_FALSE\n"); exit(0); }
  return v;
}
void vp_assert(int c, const char *msg) {
  if (!c) { printf("VP_FAIL %s\n", msg); fflush(stdout); _Exit(3); }
}
void vp_assume(int c) { if (!c) { printf("VP_ASSUME_FALSE\n"); exit(0); } }
void vp_reach(const char *msg) { printf("%s\n", msg); }
int main(int argc, char **argv) {
  FILE *f = argc > 1 ? fopen(argv[1], "r") : NULL;
  if (f) {
    unsigned long long v; size_t cap = 0;
    while (fscanf(f, "%llu", &v) == 1) {
      if (ndraws == cap) draws = realloc(draws, (cap = cap ? 2 * cap : 256) * sizeof(*draws));
      draws[ndraws++] = v;
    }
    fclose(f);
  }
  vp_main();
  printf("VP_DONE\n");
  return 0;
}
