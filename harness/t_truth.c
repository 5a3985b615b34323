/* time_truth.c: every history of updates, with other threads running updates at every atomic operation. */
#include <gnss-converters/time_truth.h>
#include <stdatomic.h>
#include <string.h>
#include "vp.h"
static time_truth_t T;
static int budget, depth;
static gps_time_t acc[8]; /* times accepted as updates, in order of return */
static int n_acc;
static gps_time_t tim(void) {
  gps_time_t t;
#if MODE == 1
  /* every double */
  t.wn = (s16)vp_u16();
  t.tow = vp_f64();
#else
  static const struct { s16 wn; double tow; } tab[] = {{2000, 0.5}, {2000, 604799.5}, {2000, 604799.99}, {2001, 0}, {2001, 100.015625}, {2001, 100.015}, {1999, 604799}, {2100, 604800}, {2100, -1}};
  int k = (int)vp_split(vp_range(0, depth ? 4 : (int)(sizeof tab / sizeof *tab) - 1));
  t.wn = tab[k].wn;
  t.tow = tab[k].tow;
#endif
  return t;
}
static bool ok(const gps_time_t *t) { return t->tow >= 0 && t->tow < 604800 && t->wn >= 2000; }
static bool before(const gps_time_t *a, const gps_time_t *b) { return (a->wn < b->wn) | ((a->wn == b->wn) & (a->tow < b->tow)); }
static void look(int *st, gps_time_t *t) {
  /* with a budget of 0 the environment does nothing */
  enum time_truth_state s = 7;
  int b = budget;
  budget = 0;
  time_truth_get(&T, &s, t);
  budget = b;
  *st = s;
}
static bool upd(void) {
  gps_time_t t = tim();
  gps_time_t now;
  int st;
  bool r = time_truth_update(&T, (enum time_truth_source)vp_range(0, 2), t);
  look(&st, &now);
  if (r) {
    VP_ASSERT(ok(&t), "an invalid time or one before the reference week is never accepted");
    VP_ASSERT(st == TIME_TRUTH_SOLVED, "solved after an accepted update");
    gps_time_t f = {.wn = t.wn, .tow = (float)t.tow};
    if (f.tow > 604799.9375) f.tow = 604799.9375; /* the largest single-precision time of week */
    VP_ASSERT(!before(&now, &f), "an accepted time is not lost");
    acc[n_acc & 7] = f;
    n_acc++;
  } else {
    VP_ASSERT(!ok(&t) | ((st == TIME_TRUTH_SOLVED) & !before(&now, &t)), "a refused time is invalid or not later than the truth");
  }
  return r;
}
void vp_env(void) {
  if (budget == 0 || depth) return;
  if (!vp_split(vp_u8() & 1)) return;
  budget--;
  depth = 1;
  upd();
  depth = 0;
}
void vp_main(void) {
  time_truth_init(&T);
  gps_time_t prev, now;
  int st;
  look(&st, &now);
  VP_ASSERT(st == TIME_TRUTH_UNKNOWN, "unknown at first");
  VP_ASSERT(!(now.tow >= 0 && now.tow < 604800 && now.wn >= 0), "the time is invalid while unknown");
  prev = now;
  for (int i = 0; i < NU; i++) {
#if ENV
    budget = ENV;
#endif
    upd();
    int st2;
    look(&st2, &now);
    VP_ASSERT(st2 >= st, "never unsolved again");
    VP_ASSERT(st == TIME_TRUTH_UNKNOWN || !before(&now, &prev), "the truth never goes back");
    VP_ASSERT(st2 != TIME_TRUTH_SOLVED || ok(&now), "a solved time is valid");
    prev = now;
    st = st2;
  }
  if (n_acc) {
    bool hit = false;
    for (int i = 0; i < n_acc && i < 8; i++) hit |= (acc[i].wn == now.wn) & (acc[i].tow == now.tow);
    VP_ASSERT(hit, "the truth is one of the accepted times");
    VP_ASSERT(st == TIME_TRUTH_SOLVED, "solved once a time was accepted");
  } else {
    VP_ASSERT(st == TIME_TRUTH_UNKNOWN, "unknown until a time is accepted");
  }
#if GET
  /* a reader sees the state and time of one moment */
  budget = 1;
  enum time_truth_state s1;
  gps_time_t t0 = now, t1;
  int st0 = st;
  time_truth_get(&T, &s1, &t1);
  look(&st, &now);
  VP_ASSERT(((int)s1 == st0 && t1.wn == t0.wn && t1.tow == t0.tow) || ((int)s1 == st && t1.wn == now.wn && t1.tow == now.tow), "state and time of one moment");
  budget = 0;
  time_truth_get(&T, NULL, NULL);
#endif
  VP_REACH("end");
}
