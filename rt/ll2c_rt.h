#ifndef LL2C_RT_H
#define LL2C_RT_H
typedef unsigned char u8_t; typedef unsigned short u16_t; typedef unsigned int u32_t; typedef unsigned long u64_t;
typedef signed char s8_t; typedef short s16_t; typedef int s32_t; typedef long s64_t;
typedef unsigned __int128 u128_t; typedef __int128 s128_t;
typedef char *ptr_t;
u64_t vp_undef(void);
void vp_memcpy(void *d, const void *s, u64_t n);
void vp_memmove(void *d, const void *s, u64_t n);
void vp_memset(void *d, int c, u64_t n);
void vp_memcpy_c(void *d, const void *s, u64_t n);
void vp_memmove_c(void *d, const void *s, u64_t n);
void vp_memset_c(void *d, int c, u64_t n);
void vp_va(void *);
void vp_unreachable(void);
static inline u64_t vp_d2u(double d) { union { double d; u64_t u; } x; x.d = d; return x.u; }
static inline double vp_u2d(u64_t u) { union { double d; u64_t u; } x; x.u = u; return x.d; }
static inline u32_t vp_f2u(float d) { union { float d; u32_t u; } x; x.d = d; return x.u; }
static inline float vp_u2f(u32_t u) { union { float d; u32_t u; } x; x.u = u; return x.d; }
static inline u16_t vp_bswap16(u16_t v) { return (u16_t)((v << 8) | (v >> 8)); }
static inline u32_t vp_bswap32(u32_t v) { return (v << 24) | ((v & 0xff00u) << 8) | ((v >> 8) & 0xff00u) | (v >> 24); }
static inline u64_t vp_bswap64(u64_t v) { return ((u64_t)vp_bswap32((u32_t)v) << 32) | vp_bswap32((u32_t)(v >> 32)); }
static inline u32_t vp_fshl32(u32_t a, u32_t b, u32_t c) { c &= 31; return c ? (a << c) | (b >> (32 - c)) : a; }
static inline u64_t vp_fshl64(u64_t a, u64_t b, u64_t c) { c &= 63; return c ? (a << c) | (b >> (64 - c)) : a; }
static inline u16_t vp_fshl16(u16_t a, u16_t b, u16_t c) { c &= 15; return c ? (u16_t)((a << c) | (b >> (16 - c))) : a; }
static inline u8_t vp_fshl8(u8_t a, u8_t b, u8_t c) { c &= 7; return c ? (u8_t)((a << c) | (b >> (8 - c))) : a; }
static inline u32_t vp_fshr32(u32_t a, u32_t b, u32_t c) { c &= 31; return c ? (a << (32 - c)) | (b >> c) : b; }
static inline u64_t vp_fshr64(u64_t a, u64_t b, u64_t c) { c &= 63; return c ? (a << (64 - c)) | (b >> c) : b; }
static inline u16_t vp_fshr16(u16_t a, u16_t b, u16_t c) { c &= 15; return c ? (u16_t)((a << (16 - c)) | (b >> c)) : b; }
static inline u8_t vp_fshr8(u8_t a, u8_t b, u8_t c) { c &= 7; return c ? (u8_t)((a << (8 - c)) | (b >> c)) : b; }
static inline u32_t vp_usub_sat32(u32_t a, u32_t b) { return a > b ? a - b : 0; }
static inline u64_t vp_usub_sat64(u64_t a, u64_t b) { return a > b ? a - b : 0; }
static inline u8_t vp_usub_sat8(u8_t a, u8_t b) { return a > b ? a - b : 0; }
static inline u16_t vp_usub_sat16(u16_t a, u16_t b) { return a > b ? a - b : 0; }
static inline u64_t vp_ctpop(u64_t v) { u64_t n = 0; for (int i = 0; i < 64; i++) n += (v >> i) & 1; return n; }
s32_t vpc_memcmp(const char *a, const char *b, u64_t n);
s32_t vpc_bcmp(const char *a, const char *b, u64_t n);
void *vpc_memchr(const char *a, s32_t c, u64_t n);
u64_t vpc_strlen(const char *a);
s32_t vpc_vsnprintf(char *b, u64_t n, const char *f, void *ap);
s32_t vpc_snprintf(char *b, u64_t n, const char *f, ...);
s32_t vpc_fprintf(void *f, const char *s, ...);
s32_t vpc_printf(const char *s, ...);
u64_t vpc_fwrite(const void *p, u64_t a, u64_t b, void *f);
s32_t vpc_puts(const char *s);
s32_t vpc_fputs(const char *s, void *f);
s32_t vpc_fputc(s32_t c, void *f);
s32_t vpc_putchar(s32_t c);
void vpc___assert_fail(const char *e, const char *f, u32_t l, const char *fn);
void vpc_abort(void);
extern char *vpc_stderr, *vpc_stdout;
/* libm */
double floor(double); double ceil(double); double round(double); double rint(double); double fabs(double);
double trunc(double); double sqrt(double); double cos(double); double sin(double); double fmax(double, double);
double fmin(double, double); double ldexp(double, int); double pow(double, double); double copysign(double, double);
float roundf(float); float floorf(float); float fabsf(float); float sqrtf(float); float fmaxf(float, float);
long lround(double); long long llround(double); double nearbyint(double);
#endif
