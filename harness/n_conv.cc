/* nov2sbp: every callback the converter registers with the parser, reached through nov2sbp_main. The parser itself (N01-N07) is replaced by a
 * stand-in that hands over harness-made messages. M_*: which conversion. */
#include "vp.h"
#include <math.h>
#include <string.h>
#include <swiftnav/nav_meas.h>
#include "parser/novatel.h"
#include <libsbp/legacy/vp_legacy.h>
#include <swiftnav/gnss_time.h>
#include <swiftnav/pvt_result.h>
using namespace Novatel;
static Message::CallbackArray *cbs;
static void drive();
Parser::Parser(ReadFunction readfn, LogFunction logfn, const Message::CallbackArray &callbacks, void *context)
    : num_bytes_in_buffer_(0), readfn_(readfn), logfn_(logfn), callbacks_(callbacks), context_(context) {}
void Parser::process() {
  cbs = const_cast<Message::CallbackArray *>(&callbacks_);
  drive();
}
extern "C" int nov2sbp_main(int, char **, const char *, int (*)(uint8_t *, uint32_t, void *), int (*)(uint8_t *, uint32_t, void *), void *);
#ifndef MAXO
#define MAXO 8
#endif
static struct { uint16_t type; uint8_t len; uint8_t b[256]; } o[MAXO];
static int n, bad;
static int wfn(uint8_t *, uint32_t k, void *) { return (int)k; }
static int rfn(uint8_t *, uint32_t, void *) { return 0; }
static int ctx;
extern "C" {
void sbp_state_init(sbp_state_t *s) { s->io_context = 0; }
void sbp_state_set_io_context(sbp_state_t *s, void *c) { s->io_context = c; }
s8 sbp_send_message(sbp_state_t *s, u16 t, u16 id, u8 len, u8 *p, s32 (*w)(u8 *, u32, void *)) {
  bad |= id != 5000 || w != wfn || s->io_context != &ctx;
  if (n < MAXO) {
    o[n].type = t;
    o[n].len = len;
    memcpy(o[n].b, p, len);
  }
  n++;
  return SBP_OK;
}
int getopt(int, char *const *, const char *) { return -1; }
static double g_lat, g_lon;
static float g_off;
float get_geoid_offset(double lat, double lon) {
  g_lat = lat;
  g_lon = lon;
  return g_off;
}
static double trig[2], trig_s, trig_c;
#ifdef M_VEL
double sin(double x) {
  trig[0] = x;
  return trig_s;
}
double cos(double x) {
  trig[1] = x;
  return trig_c;
}
#endif
bool sid_valid(gnss_signal_t sid) {
  switch (sid.code) {
    case CODE_GPS_L1CA: case CODE_GPS_L2P: return sid.sat >= 1 && sid.sat <= 32;
    case CODE_GLO_L1OF: case CODE_GLO_L2OF: return sid.sat >= 1 && sid.sat <= 28;
    default: return false;
  }
}
void swiftnav_log(int, const char *, ...) {}
}
static void call(Message::Id id, const BinaryHeader &h, const void *d) {
  for (auto &c : *cbs)
    if (c.message_id == id && c.callfn) {
      c.callfn(&h, d);
      return;
    }
  VP_ASSERT(0, "a callback is registered for every message that is converted");
}
template <class T> static T got(int i) {
  T t;
  memcpy(&t, o[i].b, sizeof t);
  return t;
}
template <class T> static bool isa(int i, uint16_t type) { return i < n && o[i].type == type && o[i].len == sizeof(T); }
static BinaryHeader hdr() {
  BinaryHeader h;
  h.message_len = vp_u16();
  h.message_id = vp_u16();
  h.week = vp_u16();
  h.ms = vp_range(0, 604799999);
  return h;
}
static double grid(int sh) { return (double)(int32_t)vp_u32() / (double)(1ll << sh); }
static uint64_t bits(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static uint32_t fbits(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }
#if defined(M_POS) || defined(M_VEL)
static uint32_t posflags(uint32_t t) {
  switch (t) {
    case 0: return 0;
    case 16: return 1;
    case 17: return 2;
    case 18: return 6;
    case 34: return 3;
    case 48: case 49: case 50: return 4;
    case 52: return 8 | 6;
    case 53: return 8 | 1;
    case 54: return 8 | 2;
    case 55: return 8 | 3;
    case 56: return 8 | 4;
    default: return 1;
  }
}
#endif
#if defined(M_POS)
static void one(int k, BinaryHeader &last, bool first) {
  Message::BESTPOS_t p;
  memset(&p, 0, sizeof p);
  BinaryHeader h = hdr();
  p.sol_stat = vp_u32();
  #ifdef ACC
  uint32_t t = 56;
#else
  uint32_t t = k ? 56 : vp_split(vp_range(0, 82));
#endif
  p.pos_type = t;
  p.lat = grid(20);
  p.lon = grid(20);
  p.hgt = grid(12);
  p.undulation = (float)(int16_t)vp_u16();
  g_off = (float)(int16_t)vp_u16() / 256.0f;
  p.num_sv_tracked = vp_u8();
  p.num_sv_in_soln = vp_u8();
  static const float T[] = {0.f, 0.0004f, 0.000500001f, 0.0124f, 1.25f, 65.5344f, 65.5346f, 65.5356f, 70.f, 1e6f, 3e38f};
  static const uint16_t M[] = {0, 0, 1, 12, 1250, 65534, 65535, 65535, 65535, 65535, 65535};
  uint32_t a = 3, b = 4, c = 6;
#ifdef ACC
  a = vp_split(vp_range(0, 10)), b = vp_split(vp_range(0, 10)), c = vp_split(vp_range(0, 10));
#endif
  p.lat_stddev = T[a];
  p.lon_stddev = T[b];
  p.hgt_stddev = T[c];
  int at = n;
  g_lat = g_lon = 1e9;
  call(Message::BESTPOS, h, &p);
  bool same = !first && h.week == last.week && h.ms == last.ms;
  VP_ASSERT(n == at + (same ? 1 : 2), "the time is sent exactly when it differs from the last one sent");
  if (!same) {
    VP_ASSERT(isa<msg_gps_time_t>(at, SBP_MSG_GPS_TIME), "the time comes first");
    msg_gps_time_t g = got<msg_gps_time_t>(at);
    VP_ASSERT((g.wn == h.week) & (g.tow == (uint32_t)h.ms) & (g.ns_residual == 0) & (g.flags == 1), "time fields");
    at++;
  }
  VP_ASSERT(isa<msg_pos_llh_t>(at, SBP_MSG_POS_LLH), "position sent");
  msg_pos_llh_t m = got<msg_pos_llh_t>(at);
  VP_ASSERT((m.tow == (uint32_t)h.ms) & (bits(m.lat) == bits(p.lat)) & (bits(m.lon) == bits(p.lon)), "time, latitude and longitude");
  VP_ASSERT((bits(g_lat) == bits(p.lat * D2R)) & (bits(g_lon) == bits(p.lon * D2R)), "the geoid separation is taken at the position, in radians");
  VP_ASSERT(bits(m.height) == bits(p.hgt + (double)g_off), "height above the ellipsoid");
  VP_ASSERT(m.v_accuracy == M[c], "vertical accuracy in mm, saturated");
  VP_ASSERT(m.h_accuracy == (M[a] > M[b] ? M[a] : M[b]), "horizontal accuracy in mm, the larger of the two, saturated");
  VP_ASSERT(m.n_sats == p.num_sv_in_soln, "satellites in solution");
  VP_ASSERT(m.flags == posflags(t), "fix mode");
  last = h;
}
static void drive() {
  BinaryHeader last;
  one(0, last, true);
#ifndef ACC
  one(1, last, false);
#endif
#ifdef POS3
  one(2, last, false);
#endif
}
#elif defined(M_VEL)
/* velocity before, at and after a position */
static void vel(bool first, const BinaryHeader *p, uint32_t pf, BinaryHeader &last) {
  Message::BESTVEL_t v;
  memset(&v, 0, sizeof v);
  BinaryHeader h = hdr();
#ifndef NUM
  v.hor_speed = 1.5, v.trk_gnd = 45., v.vert_speed = -0.25, trig_s = 0.5, trig_c = 0.25;
#else
  v.hor_speed = (double)vp_range(-99, 99999999) / 4.0;
  v.trk_gnd = (double)vp_range(0, 92160) / 256.0;
  v.vert_speed = grid(8);
  trig_s = (double)vp_range(-1024, 1024) / 1024.0;
  trig_c = (double)vp_range(-1024, 1024) / 1024.0;
#endif
  int at = n;
  call(Message::BESTVEL, h, &v);
  bool same = !first && h.week == last.week && h.ms == last.ms;
  VP_ASSERT(n == at + (same ? 1 : 2), "the time is sent exactly when it differs from the last one sent");
  if (!same) {
    VP_ASSERT(isa<msg_gps_time_t>(at, SBP_MSG_GPS_TIME), "the time comes first");
    msg_gps_time_t g = got<msg_gps_time_t>(at);
    VP_ASSERT((g.wn == h.week) & (g.tow == (uint32_t)h.ms) & (g.ns_residual == 0) & (g.flags == 1), "time fields");
    at++;
  }
  VP_ASSERT(isa<msg_vel_ned_t>(at, SBP_MSG_VEL_NED), "velocity sent");
  msg_vel_ned_t m = got<msg_vel_ned_t>(at);
  VP_ASSERT(m.tow == (uint32_t)h.ms, "time of week");
#ifdef NUM
  VP_ASSERT((bits(trig[0]) == bits(v.trk_gnd * M_PI / 180.)) & (bits(trig[1]) == bits(v.trk_gnd * M_PI / 180.)), "the track is converted to radians");
  double en = round(1000. * v.hor_speed * trig_c), ee = round(1000. * v.hor_speed * trig_s), ed = round(-1000. * v.vert_speed);
  VP_ASSERT(m.n == (en <= -2147483648. ? INT32_MIN : en >= 2147483647. ? INT32_MAX : (int32_t)en), "north in mm/s, saturated");
  VP_ASSERT(m.e == (ee <= -2147483648. ? INT32_MIN : ee >= 2147483647. ? INT32_MAX : (int32_t)ee), "east in mm/s, saturated");
  VP_ASSERT(m.d == (ed <= -2147483648. ? INT32_MIN : ed >= 2147483647. ? INT32_MAX : (int32_t)ed), "down is the negated vertical speed in mm/s, saturated");
#endif
  VP_ASSERT((m.h_accuracy == 0) & (m.v_accuracy == 0) & (m.n_sats == 0), "nothing is known about accuracy");
  VP_ASSERT(m.flags == (p && p->ms == h.ms ? pf : 0), "the fix mode is that of the position of the same time");
  last = h;
}
static void drive() {
  BinaryHeader last;
  vel(true, nullptr, 0, last);
#ifndef NUM
  for (int i = 0; i < 2; i++) {
    BinaryHeader h = hdr();
    Message::BESTPOS_t p;
    memset(&p, 0, sizeof p);
    static const uint8_t T[] = {0, 16, 17, 18, 34, 50, 55, 99};
    p.pos_type = T[vp_split(vp_range(0, 7))];
    p.lat_stddev = p.lon_stddev = p.hgt_stddev = 1.f;
    call(Message::BESTPOS, h, &p);
    last = h;
    vel(false, &h, posflags(p.pos_type), last);
    if (i == 0) n = 0;
  }
#endif
}
#elif defined(M_ATT)
static int32_t udeg(double d) {
  double r = round(d * 1000000.);
  return r >= 2147483647. ? INT32_MAX : r <= -2147483648. ? INT32_MIN : (int32_t)r;
}
static void drive() {
  for (int k = 0; k < 2; k++) {
    Message::INSATT_t a;
    memset(&a, 0, sizeof a);
    BinaryHeader h = hdr();
    a.gnss_week = vp_u32();
    a.tow = grid(4);
    a.roll = grid(18);
    a.pitch = grid(18);
    a.azimuth = grid(18);
    a.status = vp_u32();
    int at = n;
    call(Message::INSATT, h, &a);
    VP_ASSERT(n == at + 1 && isa<msg_orient_euler_t>(at, SBP_MSG_ORIENT_EULER), "one attitude");
    msg_orient_euler_t m = got<msg_orient_euler_t>(at);
    VP_ASSERT((m.tow == (uint32_t)h.ms) & (m.flags == (a.status == 3)), "time and validity");
    VP_ASSERT((m.roll == udeg(a.roll)) & (m.pitch == udeg(a.pitch)) & (m.yaw == udeg(a.azimuth)), "angles in microdegrees");
    VP_ASSERT((fbits(m.roll_accuracy) == 0) & (fbits(m.pitch_accuracy) == 0) & (fbits(m.yaw_accuracy) == 0), "no accuracies");
  }
}
#elif defined(M_EPH)
static void drive() {
  Message::GPSEPHEM_t e;
  memset(&e, 0, sizeof e);
  BinaryHeader h = hdr();
  e.prn = vp_range(1, 32);
  e.tow = grid(4);
  e.health = vp_u8();
  e.iode1 = vp_u8();
  e.iode2 = e.iode1;
  e.iodc = (vp_u8() & 3) << 8 | e.iode1;
  e.week = vp_u16();
  e.z_week = vp_u32() & 1023;
  e.toe = vp_range(0, 604799);
  e.toc = vp_range(0, 604799);
  static const double A[] = {26559710.25 * 1.0, 5153.5 * 5153.5, 5200.25 * 5200.25, 4096. * 4096.}, AR[] = {0, 5153.5, 5200.25, 4096.};
  uint32_t ai = vp_split(vp_range(1, 3));
  e.A = A[ai];
  static const double U[] = {4., 5.76, 11.56, 4096. * 4096., 0.}, UR[] = {2., 2.4, 3.4, 4096., 0.};
  uint32_t ui = vp_split(vp_range(0, 4));
  e.URA = U[ui];
#define D(f) e.f = vp_f64(); VP_ASSUME(e.f == e.f)
  D(delta_N); D(M0); D(ecc); D(omega); D(I0); D(I_dot); D(omega0); D(omega_dot);
#define F(f) { float v = vp_f32(); VP_ASSUME(v == v); e.f = v; }
  F(cuc) F(cus) F(crc) F(crs) F(cic) F(cis) F(tgd) F(af0) F(af1) F(af2)
  e.N = grid(3);
  call(Message::GPSEPHEM, h, &e);
  VP_ASSERT(n == 1 && isa<msg_ephemeris_gps_t>(0, SBP_MSG_EPHEMERIS_GPS), "one ephemeris");
  msg_ephemeris_gps_t m = got<msg_ephemeris_gps_t>(0);
  VP_ASSERT((m.common.sid.sat == e.prn) & (m.common.sid.code == 0), "satellite");
  VP_ASSERT((m.common.toe.tow == (uint32_t)e.toe) & (m.common.toe.wn == e.week) & (m.toc.tow == (uint32_t)e.toc) & (m.toc.wn == e.week), "reference times");
  VP_ASSERT((m.common.fit_interval == 14400) & (m.common.valid == 1) & (m.common.health_bits == e.health), "fit interval, validity and health");
  VP_ASSERT(m.common.ura == (float)UR[ui], "range accuracy is the root of the variance");
  VP_ASSERT(m.sqrta == AR[ai], "root of the semi-major axis");
  VP_ASSERT((m.iode == e.iode1) & (m.iodc == e.iodc), "issues of data");
#define EF(a, f) (fbits(m.a) == fbits((float)e.f))
  VP_ASSERT(EF(tgd, tgd) & EF(c_rc, crc) & EF(c_rs, crs) & EF(c_uc, cuc) & EF(c_us, cus) & EF(c_ic, cic) & EF(c_is, cis) & EF(af0, af0) & EF(af1, af1) & EF(af2, af2), "single precision fields");
#define ED(a, f) (bits(m.a) == bits(e.f))
  VP_ASSERT(ED(dn, delta_N) & ED(m0, M0) & ED(ecc, ecc) & ED(omega0, omega0) & ED(omegadot, omega_dot) & ED(w, omega) & ED(inc, I0) & ED(inc_dot, I_dot), "double precision fields");
}
#elif defined(M_OBS)
extern "C" u8 encode_lock_time(double);
static const int32_t LK[] = {0, 1, 2, 5, 1000, 33554, 2097151};
static const uint32_t SIG[] = {0u, 5u << 21, 0x10000u, 0x10000u | 1u << 21, 9u << 21, 0x30000u | 2u << 21, 0x20000u, 0x50000u, 17u << 21, 0x10000u | 2u << 21};
static const int CODE[] = {CODE_GPS_L1CA, CODE_GPS_L2P, CODE_GLO_L1OF, CODE_GLO_L2OF, -1, -1, -1, -1, -1, -1};
static Message::RANGECMP_t r;
static bool usable(const Message::RANGECMP_record_t &q, uint32_t k) {
  bool psr = q.pseudorange * 50 + 64 < 4294967296ull * 128;
  int32_t dop = q.doppler >> 8;
  return (CODE[k] >= 0) & (q.prn_slot >= 1) & (q.prn_slot <= (k < 2 ? 32 : 28)) & psr & (dop >= -32768) & (dop <= 32767);
}
static void content(const packed_obs_content_t &c, const Message::RANGECMP_record_t &q, uint32_t k) {
  bool lock = q.tracking_status & 0x1000;
  VP_ASSERT((c.sid.sat == q.prn_slot) & (c.sid.code == (u8)CODE[k]), "satellite and signal");
  VP_ASSERT(c.P == (uint32_t)((q.pseudorange * 50 + 64) / 128), "pseudorange in 2 cm, rounded");
  uint32_t l = -(uint32_t)q.ADR;
  VP_ASSERT(((uint32_t)c.L.i == (uint32_t)((int32_t)l >> 8)) & (c.L.f == (l & 255)), "carrier phase, opposite sign");
  VP_ASSERT((c.D.i == (int16_t)(q.doppler >> 8)) & (c.D.f == (q.doppler & 255)), "doppler");
  VP_ASSERT(c.cn0 == (lock ? (q.CN0 + 20) * 4 : 0), "carrier to noise, zero when unknown");
  VP_ASSERT(c.lock == encode_lock_time((double)q.lock_time / 32.0), "lock time");
  bool ph = q.tracking_status & 0x400, par = q.tracking_status & 0x800;
  VP_ASSERT((c.flags & ~2) == ((lock ? 1 | 8 : 0) | (q.tracking_status & 0x10000000 ? 4 : 0)), "validity flags");
  VP_ASSERT(((c.flags & 2) != 0 || !(ph & par)) & ((c.flags & 2) == 0 || ph || par), "phase validity");
}
static void drive() {
  BinaryHeader h = hdr();
  VP_ASSUME(h.week < 32768);
#if defined(TIME)
  static const int32_t MS[] = {0, 1, 999, 1001, 123456789, 302400001, 604799999};
  h.ms = MS[vp_split(vp_range(0, 6))];
#else
  h.ms = 345600200;
#endif
  uint32_t kk[64];
  r.n_records = NREC;
  for (int i = 0; i < NREC; i++) {
    auto &q = r.records[i];
    if (i >= SYM) {
      /* distinct concrete contents, every seventh record unusable */
      kk[i] = i % 7 == 6 ? 4 : i % 4;
      q.tracking_status = 0x1C00 | SIG[kk[i]];
      q.doppler = i * 1000 - 77;
      q.pseudorange = 2800000000ull + i * 777;
      q.ADR = -i * 12345 + 7;
      q.prn_slot = i % 28 + 1;
      q.lock_time = 64;
      q.CN0 = i & 31;
      continue;
    }
    uint32_t k = vp_split(vp_range(0, 9));
    kk[i] = k;
    q.tracking_status = (vp_u32() & 0xFC08FFFF) | SIG[k];
#ifdef DOP
    q.doppler = vp_u32();
    q.doppler = (int32_t)((uint32_t)q.doppler << 4) >> 4;
    q.pseudorange = (1ull << 32) + i;
    q.ADR = -i;
#else
    q.doppler = (int32_t)i * 1000 - 77;
    q.pseudorange = vp_u64() & 0xFFFFFFFFFull;
    q.ADR = vp_u32();
    VP_ASSUME(q.ADR != INT32_MIN);
#endif
    q.prn_slot = vp_u8();
    q.lock_time = LK[vp_split(vp_range(0, 6))];
    q.CN0 = vp_u8() & 31;
    q.glo_freq_no = vp_u8() & 63;
    q.stddev_psr = vp_u8();
    q.stddev_adr = vp_u8();
  }
  call(Message::RANGECMP, h, &r);
  const int total = NREC ? (NREC + 13) / 14 : 1;
  VP_ASSERT(n == total, "as many messages as the records need, at least one");
  int next = 0;
  for (int s = 0; s < total; s++) {
    VP_ASSERT(o[s].type == SBP_MSG_OBS && o[s].len >= 11, "observations");
    observation_header_t g = got<observation_header_t>(s);
    VP_ASSERT((g.t.wn == h.week) & (g.t.tow == (uint32_t)h.ms) & (g.t.ns_residual > -1000) & (g.t.ns_residual < 1000), "the time of the measurements");
    VP_ASSERT(g.n_obs == (total << 4 | s), "sequence header");
    int at = 11;
    for (int i = 0; i < 14 && next < NREC; i++, next++) {
      if (!usable(r.records[next], kk[next])) continue;
      VP_ASSERT(at + 17 <= o[s].len, "no usable record is lost");
      packed_obs_content_t c;
      memcpy(&c, o[s].b + at, 17);
      content(c, r.records[next], kk[next]);
      at += 17;
    }
    VP_ASSERT(o[s].len == at, "unusable records are left out");
  }
}
#elif defined(M_IMU)
#define P2(k) (1.0 / (double)(1ull << (k)))
struct T { uint8_t type; double hz, gyro, acc; };
#define PI_ 3.14159265358979323846
/* rates and scale factors of the SPAN RAWIMUSX documentation; hz 0: unknown, gyro 0 / acc 0: no scale */
#define FT(x) ((x) * 0.3048)
#define MG(x) ((x) / 1000. * 9.806)
#define DR(x) ((x) * PI_ / 180.)
static const T TY[] = {
  {1, 100, 0, 0}, {4, 100, 0, 0}, {5, 100, P2(33), FT(P2(27))}, {8, 200, P2(19), P2(14)}, {11, 100, P2(33), FT(P2(27))}, {12, 100, P2(33), FT(P2(26))},
  {13, 200, DR(0.1 / 256 / 3600.), 0.05 / 32768}, {16, 0, 0, 0}, {20, 100, P2(33), FT(P2(27))}, {26, 200, 1e-9, 2e-8}, {27, 100, P2(33), FT(P2(27))}, {28, 100, P2(33), FT(P2(27))},
  {31, 200, DR(720 * P2(31)), 200 * P2(31)}, {32, 125, DR(P2(21)), P2(22)}, {33, 200, 0.1 / (3600. * 256.), 0.05 / 32768}, {41, 125, -1, -1}, {52, 0, 0, 0}, {56, 125, DR(P2(21)), P2(22)},
  {58, 100, P2(33), P2(29)}, {61, 200, DR((0.0151515 / 65536.) / 200.), MG((0.400 / 65536.) / 200.)}, {62, 200, -1, -1}, {0, 0, 0, 0}, {2, 0, 0, 0}, {63, 0, 0, 0}, {255, 0, 0, 0}};
static int32_t s32_(double d) { d = round(d); return d <= -2147483648. ? INT32_MIN : d >= 2147483647. ? INT32_MAX : (int32_t)d; }
static int16_t s16_(double d) { d = round(d); return d <= -32768. ? INT16_MIN : d >= 32767. ? INT16_MAX : (int16_t)d; }
#ifndef CONC
#define VAL() ((int32_t)vp_u32())
#else
static const int32_t V[] = {0, 1, -1, 1000, -12345, 1 << 20, -(1 << 27), INT32_MAX, -INT32_MAX};
#ifdef SEQ
#define VAL() -12345
#else
#define VAL() V[vp_split(vp_range(0, 8))]
#endif
#endif
static bool near_(double a, double b) { double d = a - b, t = 0.5000001 + 1e-12 * (b < 0 ? -b : b); return (d <= t) & (d >= -t); }
static double clamp(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
static void rate_ok(int32_t got_, double ideal, const char *) { VP_ASSERT(near_(got_, clamp(ideal, -2147483648., 2147483647.)), "angular rate in microdegrees per second, rounded"); }
static void raw_ok(int16_t got_, double ideal) { VP_ASSERT(near_(got_, clamp(ideal, -32768., 32767.)), "raw value in the range the message declares, rounded"); }
static void sample(const T &t, const BinaryHeader &h, double hz, bool err, bool aux) {
  Message::RAWIMUSX_t m;
  memset(&m, 0, sizeof m);
  m.imu_type = t.type;
  m.imu_info = err ? vp_range(1, 3) : 0;
#ifdef INFO
  m.imu_info |= vp_u8() & 0xFC;
#endif
  m.imu_status = vp_u32();
  m.x_gyro = VAL(); m.y_gyro = 77; m.z_gyro = -78; m.x_accel = 79; m.y_accel = 80; m.z_accel = -81;
#if defined(AXIS) && AXIS == 1
  m.y_gyro = m.x_gyro; m.x_gyro = -5;
#elif defined(AXIS) && AXIS == 2
  m.z_gyro = m.x_gyro; m.x_gyro = -5;
#elif defined(AXIS) && AXIS == 3
  m.x_accel = m.x_gyro; m.x_gyro = -5;
#elif defined(AXIS) && AXIS == 4
  m.y_accel = m.x_gyro; m.x_gyro = -5;
#elif defined(AXIS) && AXIS == 5
  m.z_accel = m.x_gyro; m.x_gyro = -5;
#endif
  n = 0;
  call(Message::RAWIMUSX, h, &m);
  double g = t.gyro, a = t.acc, r = hz > 0 ? hz : t.hz;
  if (g < 0) g = DR((0.008 / 65536.) / r), a = MG((0.200 / 65536.) / r);
  bool ra = !err && r > 0 && g != 0, rw = ra && a != 0;
  VP_ASSERT(n == ra + rw + aux, "angular rate and raw data are sent when the sample is usable, auxiliary data at most once a second");
  int at = 0;
  if (ra) {
    VP_ASSERT(isa<msg_angular_rate_t>(at, SBP_MSG_ANGULAR_RATE), "angular rate");
    msg_angular_rate_t x = got<msg_angular_rate_t>(at++);
    VP_ASSERT((x.tow == (uint32_t)h.ms) & (x.flags == 1), "time and validity of the angular rate");
#define GY(v) (((double)(v) * g * r) * 180. / M_PI)
#ifdef CONC
    rate_ok(x.x, GY(m.x_gyro) * 1e6, ""), rate_ok(x.y, GY(-(double)m.y_gyro) * 1e6, ""), rate_ok(x.z, GY(m.z_gyro) * 1e6, "");
#else
    VP_ASSERT((x.x == s32_(GY(m.x_gyro) * 1000000.)) & (x.y == s32_(GY(-(double)m.y_gyro) * 1000000.)) & (x.z == s32_(GY(m.z_gyro) * 1000000.)), "angular rate in microdegrees per second");
#endif
  }
  if (rw) {
    VP_ASSERT(isa<msg_imu_raw_t>(at, SBP_MSG_IMU_RAW), "raw data");
    msg_imu_raw_t x = got<msg_imu_raw_t>(at++);
    VP_ASSERT((x.tow == (uint32_t)h.ms) & (x.tow_f == 0), "time of the raw data");
#define AC(v) ((double)(v) * a * r * 32768. / (8. * 9.806))
#ifdef CONC
    raw_ok(x.acc_x, AC(m.x_accel)), raw_ok(x.acc_y, AC(-(double)m.y_accel)), raw_ok(x.acc_z, AC(m.z_accel));
    raw_ok(x.gyr_x, GY(m.x_gyro) * 32768. / 125.), raw_ok(x.gyr_y, GY(-(double)m.y_gyro) * 32768. / 125.), raw_ok(x.gyr_z, GY(m.z_gyro) * 32768. / 125.);
#else
    VP_ASSERT((x.acc_x == s16_(AC(m.x_accel))) & (x.acc_y == s16_(AC(-(double)m.y_accel))) & (x.acc_z == s16_(AC(m.z_accel))), "accelerations in units of the declared range");
    VP_ASSERT((x.gyr_x == s16_(GY(m.x_gyro) * 32768. / 125.)) & (x.gyr_y == s16_(GY(-(double)m.y_gyro) * 32768. / 125.)) & (x.gyr_z == s16_(GY(m.z_gyro) * 32768. / 125.)), "rates in units of the declared range");
#endif
  }
  if (aux) {
    VP_ASSERT(isa<msg_imu_aux_t>(at, SBP_MSG_IMU_AUX), "auxiliary data");
    msg_imu_aux_t x = got<msg_imu_aux_t>(at);
    VP_ASSERT((x.imu_type == 1) & (x.temp == 0) & (x.imu_conf == 0x42), "declared ranges: 8 g and 125 degrees per second");
  }
}
static void drive() {
#if defined(SEQ)
  /* arbitrary spacing of four samples; the rate follows the spacing, auxiliary data at most once a second */
  static const int32_t D[] = {5, 8, 10, 990, 1000, 1001, 2000, 0, -1};
  static const int32_t S[] = {400000000, 604799990, 604799000, 10, 1000, 604799999};
#ifndef NS
#define NS 2
#define NM 2
#endif
  BinaryHeader h = hdr();
  h.week = (uint16_t)vp_range(1, 5000);
  h.ms = S[vp_split(vp_range(0, NS - 1))];
  const T &t = TY[SEQ];
  int64_t at = h.ms, auxat = at;
  sample(t, h, 0, false, true);
  for (int i = 0; i < NM; i++) {
    int32_t d = D[vp_split(vp_range(0, 8))];
    int64_t next = at + d;
    BinaryHeader g = h;
    g.week = (uint16_t)(h.week + next / 604800000);
    g.ms = (int32_t)(next % 604800000);
    VP_ASSUME(g.ms != 0);
    bool aux = next - auxat >= 1000;
    if (d > 0)
      sample(t, g, 1000. / d, false, aux);
    else
      sample(t, g, 0, false, aux);
    if (aux) auxat = next;
    at = next;
  }
#else
  BinaryHeader h = hdr();
  h.week = 2100;
  h.ms = 1000;
  bool err = false;
#ifdef INFO
  err = vp_split(vp_range(0, 1));
#endif
#ifdef ONE
  sample(TY[ONE], h, 0, err, true);
#else
  sample(TY[vp_split(vp_range(0, 24))], h, 0, err, true);
#endif
#endif
}
#endif
extern "C" void vp_main(void) {
  char name[] = "n";
  char *argv[] = {name, nullptr};
  int e = nov2sbp_main(1, argv, "", rfn, wfn, &ctx);
  VP_ASSERT(e == 0, "conversion ends without error");
  VP_ASSERT(!bad, "every message carries the device's sender id and goes to the caller's write function");
  VP_REACH("end");
}
