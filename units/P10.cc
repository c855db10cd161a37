// P10: clocks
//@sources logging.cc
//@bounded custom_order custom_past output_step_0_1 output_step_0_2 output_step_1 output_step_10
#include <vector>
#include "vc.h"
#include "smash/clock.h"
using namespace smash;
// times in whole resolution units (1e-6 fm)
static const int64_t U = 1000000000000;   // 1e6 fm
struct Uni {
  int64_t t0, dt, end, n;
};
static Uni any_uni() {
  Uni u;
  u.t0 = vc_i64("t0", -U, U);
  u.dt = vc_i64("dt", 1, U);
  u.end = vc_i64("end", -U, U);
  u.n = vc_i64("ticks", 0, 1000000);
  VC_ASSUME(u.end > u.t0);
  if (!vc_symbolic()) VC_ASSUME(u.dt * u.n < 1000 * U);  // exact in doubles
  return u;
}
static double fm(int64_t k) { return static_cast<double>(k) * 1e-6; }

// the time comparisons use (also beyond the end)
static void unclipped(const Clock &c, int64_t now, const char *label) {
  double t = vc_double("probe", -2e12, 2e12);
  if (!vc_symbolic()) VC_ASSUME(std::abs(t - fm(now)) > 1e-3);
  VC_ASSERT((c < t) == (fm(now) < t), label);
  VC_ASSERT((c > t) == (fm(now) > t), label);
}
VC_PROOF(uniform_times) {
  VC_CONFIG("ints=int");
  Uni u = any_uni();
  UniformClock c(fm(u.t0), fm(u.dt), fm(u.end));
  VC_EQ(c.current_time(), fm(u.t0), "a new clock shows its start time");
  c += u.n;
  int64_t now = u.t0 + u.n * u.dt, next = now + u.dt;
  VC_EQ(c.current_time(), fm(now < u.end ? now : u.end), "current time is start plus ticks, at most the end");
  VC_EQ(c.next_time(), fm(next < u.end ? next : u.end), "next time is one tick later, at most the end");
  int64_t d = now >= u.end ? 0 : next > u.end ? u.end - now : u.dt;
  VC_EQ(c.timestep_duration(), fm(d), "the last step is shortened to end at the end time");
  ++c;
  VC_EQ(c.current_time(), fm(next < u.end ? next : u.end), "a tick advances to the next time");
}
VC_PROOF(uniform_refusals) {
  VC_CONFIG("ints=int");
  int64_t t0 = vc_i64("t0", -U, U), dt = vc_i64("dt", -U, U), end = vc_i64("end", -U, U);
  bool threw = false;
  try {
    UniformClock c(fm(t0), fm(dt), fm(end));
  } catch (const std::range_error &) {
    threw = true;
  }
  VC_ASSERT(threw == (dt <= 0 || t0 >= end), "refused exactly if the step is not positive or the end not after the start");
}
VC_PROOF(uniform_new_step) {
  VC_CONFIG("ints=int");
  Uni u = any_uni();
  int64_t dt2 = vc_i64("dt2", 1, U);
  UniformClock c(fm(u.t0), fm(u.dt), fm(u.end));
  c += u.n;
  int64_t now = u.t0 + u.n * u.dt;
  c.set_timestep_duration(fm(dt2));
  VC_EQ(c.current_time(), fm(now < u.end ? now : u.end), "changing the step does not move the clock");
  int64_t next = now + dt2;
  VC_EQ(c.next_time(), fm(next < u.end ? next : u.end), "the next tick uses the new step");
  unclipped(c, now, "changing the step leaves the unclipped time");
  ++c;
  VC_EQ(c.current_time(), fm(next < u.end ? next : u.end), "and so does the clock");
  double bad = vc_double("bad", -1e3, 0.);
  VC_THROWS(c.set_timestep_duration(bad), std::range_error, "steps must be positive");
}
VC_PROOF(uniform_advance) {
  VC_CONFIG("ints=int");
  Uni u = any_uni();
  int64_t by = vc_i64("by", 0, U);
  UniformClock c(fm(u.t0), fm(u.dt), fm(u.end));
  c += u.n;
  int64_t then = u.t0 + u.n * u.dt + by;
  c += fm(by);
  VC_EQ(c.current_time(), fm(then < u.end ? then : u.end), "advancing by a time adds it");
  unclipped(c, then, "also to the unclipped time");
  double back = vc_double("back", -1e3, -1e-9);
  VC_THROWS(c += back, std::range_error, "no turning back");
}
VC_PROOF(uniform_reset) {
  VC_CONFIG("ints=int");
  Uni u = any_uni();
  int64_t start = vc_i64("start", -U, U);
  VC_ASSUME(start <= u.end);
  UniformClock c(fm(u.t0), fm(u.dt), fm(u.end));
  c += u.n;
  c.reset(fm(start), false);
  VC_EQ(c.current_time(), fm(start), "a reset lab clock shows the start time");
  int64_t next = start + u.dt;
  VC_EQ(c.next_time(), fm(next < u.end ? next : u.end), "and goes on with its step");
}
static void reset_output(int64_t dt) {
  VC_CONFIG("ints=int");
  int64_t t0 = vc_i64("t0", -U, U), end = vc_i64("end", -U, U), k = vc_i64("k", -100000, 100000), r = vc_i64("rest", 1, 10000000);
  VC_ASSUME(end > t0 && r < dt && k * dt <= end);
  UniformClock c(fm(t0), fm(dt), fm(end));
  c.reset(fm(k * dt + r), true);
  VC_EQ(c.current_time(), fm(k * dt), "a reset output clock starts at the last multiple of its step");
}
VC_PROOF(output_step_0_1) { reset_output(100000); }
VC_PROOF(output_step_0_2) { reset_output(200000); }
VC_PROOF(output_step_1) { reset_output(1000000); }
VC_PROOF(output_step_10) { reset_output(10000000); }
VC_PROOF(uniform_compare) {
  VC_CONFIG("ints=int");
  Uni u = any_uni();
  int64_t s0 = vc_i64("s0", -U, U), ds = vc_i64("ds", 1, U), m = vc_i64("m", 0, 1000000);
  if (!vc_symbolic()) VC_ASSUME(ds * m < 1000 * U);
  UniformClock c(fm(u.t0), fm(u.dt), fm(u.end)), d(fm(s0), fm(ds), fm(s0 + 1));
  c += u.n;
  d += m;
  int64_t tc = u.t0 + u.n * u.dt, td = s0 + m * ds;
  const Clock &a = c, &b = d;
  VC_ASSERT((a < b) == (tc < td), "clocks compare by their unlimited times");
  double t = vc_double("t", -2e12, 2e12);
  if (!vc_symbolic()) VC_ASSUME(std::abs(t - fm(tc)) > 1e-3);
  VC_ASSERT((a < t) == (fm(tc) < t), "earlier than a time");
  VC_ASSERT((a > t) == (fm(tc) > t), "later than a time");
}
VC_PROOF(tick_overflow) {
  int64_t n = vc_i64("n", 0, INT64_MAX);
  UniformClock c(0., 1., 2.);
  const int64_t top = INT64_MAX;
  bool t1 = false;
  try {
    c += n;
  } catch (const std::overflow_error &) {
    t1 = true;
  }
  VC_ASSERT(t1 == (n == top), "too many ticks are refused");
  if (!t1 && n >= top - 1) VC_THROWS(++c, std::overflow_error, "ticking past the last tick is refused");
  Clock &b = c;
  if (!t1 && n > 0) {
    VC_THROWS(b += top - n, std::overflow_error, "so is adding ticks past the last one");
  }
}
static std::vector<double> three() {
  return {vc_double("a", -1e3, 1e3), vc_double("b", -1e3, 1e3), vc_double("c", -1e3, 1e3)};
}
VC_PROOF(custom_order) {
  std::vector<double> t = three();
  double start = vc_double("start", -1e3, 1e3);
  CustomClock c(t);
  c.reset(start, vc_bool("out"));
  VC_EQ(c.current_time(), start, "start time before the first tick");
  VC_EQ(c.timestep_duration(), c.next_time() - start, "first step");
  double last = -1e9;
  double sum = 0, sq = 0;
  for (int i = 0; i < 3; i++) {
    double next = c.next_time();
    ++c;
    VC_EQ(c.current_time(), next, "ticks go to the next time");
    VC_ASSERT(last <= next, "times come in ascending order");
    VC_ASSERT(next == t[0] || next == t[1] || next == t[2], "only given times");
    sum += next;
    sq += next * next;
    last = next;
  }
  VC_EQ(sum, t[0] + t[1] + t[2], "every time comes once");
  VC_THROWS(c.next_time(), std::out_of_range, "nothing after the last time");
  ++c;
  VC_THROWS(c.current_time(), std::out_of_range, "beyond the last time");
  c.reset(start, false);
  VC_EQ(c.current_time(), start, "reset goes back to the start");
}
VC_PROOF(custom_past) {
  std::vector<double> t = three();
  double start = vc_double("start", -1e3, 1e3);
  CustomClock c(t);
  c.remove_times_in_past(start);
  int n = 0;
  for (int i = 0; i < 3; i++) n += t[i] > start ? 1 : 0;
  for (int i = 0; i < n; i++) {
    VC_ASSERT(c.next_time() > start, "no time up to the start remains");
    ++c;
  }
  VC_THROWS(c.next_time(), std::out_of_range, "later times all remain");
}
