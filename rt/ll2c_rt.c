#include "ll2c_rt.h"
u64_t nondet_u64(void);
char *vpc_stderr, *vpc_stdout;
u64_t vp_undef(void) { return nondet_u64(); }
void vp_memcpy(void *d, const void *s, u64_t n) {
  char *dd = d; const char *ss = s;
  for (u64_t i = 0; i < n; i++) dd[i] = ss[i];
}
void vp_memmove(void *d, const void *s, u64_t n) {
  char *dd = d; const char *ss = s;
  if (dd <= ss || !__CPROVER_same_object(dd, ss)) { for (u64_t i = 0; i < n; i++) dd[i] = ss[i]; }
  else { for (u64_t i = n; i > 0; i--) dd[i - 1] = ss[i - 1]; }
}
void vp_memset(void *d, int c, u64_t n) {
  char *dd = d;
  for (u64_t i = 0; i < n; i++) dd[i] = (char)c;
}
/* constant sizes: loops fully unrolled (see --unwindset in tools/vp.py) */
void vp_memcpy_c(void *d, const void *s, u64_t n) {
  char *dd = d; const char *ss = s;
  for (u64_t i = 0; i < n; i++) dd[i] = ss[i];
}
void vp_memmove_c(void *d, const void *s, u64_t n) { vp_memcpy_c(d, s, n); }
void vp_memset_c(void *d, int c, u64_t n) {
  char *dd = d;
  for (u64_t i = 0; i < n; i++) dd[i] = (char)c;
}
void vp_va(void *p) { (void)p; }
void vp_unreachable(void) { __CPROVER_assume(0); }
s32_t vpc_memcmp(const char *a, const char *b, u64_t n) {
  for (u64_t i = 0; i < n; i++) if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
  return 0;
}
s32_t vpc_bcmp(const char *a, const char *b, u64_t n) { return vpc_memcmp(a, b, n); }
void *vpc_memchr(const char *a, s32_t c, u64_t n) {
  for (u64_t i = 0; i < n; i++) if (a[i] == (char)c) return (void *)(a + i);
  return 0;
}
u64_t vpc_strlen(const char *a) { u64_t n = 0; while (a[n]) n++; return n; }
s32_t vpc_vsnprintf(char *b, u64_t n, const char *f, void *ap) { if (n) b[0] = 0; return 0; }
s32_t vpc_snprintf(char *b, u64_t n, const char *f, ...) { if (n) b[0] = 0; return 0; }
s32_t vpc_fprintf(void *f, const char *s, ...) { return 0; }
s32_t vpc_printf(const char *s, ...) { return 0; }
u64_t vpc_fwrite(const void *p, u64_t a, u64_t b, void *f) { return b; }
s32_t vpc_puts(const char *s) { return 0; }
s32_t vpc_fputs(const char *s, void *f) { return 0; }
s32_t vpc_fputc(s32_t c, void *f) { return 0; }
s32_t vpc_putchar(s32_t c) { return 0; }
void vpc___assert_fail(const char *e, const char *f, u32_t l, const char *fn) {
  __CPROVER_assert(0, "VP_CODE_ASSERT the code's own assert() holds");
  __CPROVER_assume(0);
}
void vpc_abort(void) { __CPROVER_assert(0, "VP_CODE_ASSERT no abort()"); __CPROVER_assume(0); }
void vp_global_ctors(void);
void vp_main(void);
void vp_entry(void) { vp_global_ctors(); vp_main(); }
