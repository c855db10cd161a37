// Native meaning of the contract language: replay of a counterexample, or
// bounded random evaluation of the same contract against the compiled code.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <vector>

namespace vcn {
struct Skip {};
struct Reg {
  const char *name;
  void (*fn)();
};
inline std::vector<Reg> &regs() {
  static std::vector<Reg> r;
  return r;
}
inline bool reg(const char *n, void (*f)()) {
  regs().push_back({n, f});
  return true;
}
inline std::map<std::string, std::string> &fixed() {
  static std::map<std::string, std::string> m;
  return m;
}
inline std::map<std::string, std::string> &used() {
  static std::map<std::string, std::string> m;
  return m;
}
inline std::map<std::string, int> &counts() {
  static std::map<std::string, int> m;
  return m;
}
inline std::mt19937_64 &rng() {
  static std::mt19937_64 r(1);
  return r;
}
inline int &fails() {
  static int f = 0;
  return f;
}
inline long &asserts() {
  static long f = 0;
  return f;
}
inline std::string &firstfail() {
  static std::string s;
  return s;
}
inline std::string uniq(const char *n) {
  int k = counts()[n]++;
  return k ? std::string(n) + "#" + std::to_string(k) : std::string(n);
}
inline bool lookup(const std::string &k, std::string &v) {
  auto it = fixed().find(k);
  if (it == fixed().end()) return false;
  v = it->second;
  return true;
}
inline void note(const std::string &k, const std::string &v) { used()[k] = v; }
inline std::string fmt(double x) {
  char b[64];
  std::snprintf(b, sizeof b, "%.17g", x);
  return b;
}
inline double rnd01() { return std::uniform_real_distribution<double>(0, 1)(rng()); }
inline double draw(double lo, double hi) {
  double u = rnd01();
  if (u < 0.04) return lo;
  if (u < 0.08) return hi;
  if (u < 0.12 && lo <= 0 && hi >= 0) return 0.;
  if (u < 0.18) {
    double m = 0.5 * lo + 0.5 * hi;
    return m;
  }
  if (u < 0.35) {  // near an end, log scale
    double w = (hi - lo) * std::pow(10., -12 * rnd01());
    return rnd01() < 0.5 ? lo + w : hi - w;
  }
  if (u < 0.5 && hi - lo >= 2) return std::floor(lo + (hi - lo) * rnd01() + 0.5) < lo ? lo : std::fmin(hi, std::floor(lo + (hi - lo) * rnd01() + 0.5));
  if (u < 0.65 && hi - lo > 100) {
    double s = std::pow(10., -3 + 6 * rnd01());
    if (rnd01() < 0.5) s = -s;
    return std::fmin(hi, std::fmax(lo, s));
  }
  return lo + (hi - lo) * rnd01();
}
inline double drawd() {
  double u = rnd01();
  if (u < 0.1) return 0;
  if (u < 0.4) return (rnd01() < 0.5 ? -1 : 1) * rnd01();
  if (u < 0.6) return std::floor(21 * rnd01()) - 10;
  return (rnd01() < 0.5 ? -1 : 1) * std::pow(10., -4 + 8 * rnd01());
}
inline uint64_t drawu(int bits) {
  uint64_t m = bits == 64 ? ~0ull : ((1ull << bits) - 1);
  double u = rnd01();
  uint64_t r = rng()();
  if (u < 0.1) return 0;
  if (u < 0.15) return m;
  if (u < 0.2) return 1;
  if (u < 0.5) return (r >> (rng()() % bits)) & m & (m >> (rng()() % bits));
  return r & m;
}
inline void report(const char *label, const std::string &extra) {
  fails()++;
  if (firstfail().empty()) firstfail() = std::string(label) + extra;
}
}  // namespace vcn

#define VC_PROOF(name)                                             \
  static void vcproof_##name();                                    \
  static bool vcreg_##name = vcn::reg(#name, &vcproof_##name);     \
  static void vcproof_##name()

inline double vc_double(const char *n, double lo, double hi) {
  std::string k = vcn::uniq(n), v;
  double x = vcn::lookup(k, v) ? std::strtod(v.c_str(), nullptr) : vcn::draw(lo, hi);
  vcn::note(k, vcn::fmt(x));
  if (!(x >= lo && x <= hi)) throw vcn::Skip();
  return x;
}
inline double vc_double(const char *n) {
  std::string k = vcn::uniq(n), v;
  double x = vcn::lookup(k, v) ? std::strtod(v.c_str(), nullptr) : vcn::drawd();
  vcn::note(k, vcn::fmt(x));
  return x;
}
inline int64_t vc_i64(const char *n, int64_t lo, int64_t hi) {
  std::string k = vcn::uniq(n), v;
  int64_t x;
  if (vcn::lookup(k, v)) {
    x = v[0] == '-' ? static_cast<int64_t>(std::strtoll(v.c_str(), nullptr, 10)) : static_cast<int64_t>(std::strtoull(v.c_str(), nullptr, 10));
  } else {
    double u = vcn::rnd01();
    if (u < 0.1) x = lo;
    else if (u < 0.2) x = hi;
    else {
      uint64_t span = static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo);
      uint64_t r = vcn::rng()();
      if (u < 0.5 && span > 16) r %= 16; else if (span != ~0ull) r %= (span + 1);
      x = static_cast<int64_t>(static_cast<uint64_t>(lo) + r);
    }
  }
  vcn::note(k, std::to_string(x));
  if (x < lo || x > hi) throw vcn::Skip();
  return x;
}
inline int vc_int(const char *n, int lo, int hi) {
  std::string k = n;
  return static_cast<int>(vc_i64(n, lo, hi));
}
inline uint64_t vcn_u(const char *n, int bits) {
  std::string k = vcn::uniq(n), v;
  uint64_t x;
  if (vcn::lookup(k, v)) {
    x = v[0] == '-' ? static_cast<uint64_t>(std::strtoll(v.c_str(), nullptr, 10)) : std::strtoull(v.c_str(), nullptr, 10);
    if (bits < 64) x &= (1ull << bits) - 1;
  } else {
    x = vcn::drawu(bits);
  }
  vcn::note(k, std::to_string(x));
  return x;
}
inline uint64_t vc_u64(const char *n) { return vcn_u(n, 64); }
inline uint64_t vc_u64(const char *n, uint64_t lo, uint64_t hi) {
  std::string k = vcn::uniq(n), v;
  uint64_t x;
  if (vcn::lookup(k, v)) x = std::strtoull(v.c_str(), nullptr, 10);
  else {
    uint64_t span = hi - lo, r = vcn::drawu(64);
    x = lo + (span == ~0ull ? r : r % (span + 1));
  }
  vcn::note(k, std::to_string(x));
  if (x < lo || x > hi) throw vcn::Skip();
  return x;
}
inline uint32_t vc_u32(const char *n) { return static_cast<uint32_t>(vcn_u(n, 32)); }
inline uint16_t vc_u16(const char *n) { return static_cast<uint16_t>(vcn_u(n, 16)); }
inline uint8_t vc_u8(const char *n) { return static_cast<uint8_t>(vcn_u(n, 8)); }
inline bool vc_bool(const char *n) { return vcn_u(n, 1) != 0; }

extern "C" {
inline void vc_do_assume(bool c) {
  if (!c) throw vcn::Skip();
}
inline void vc_do_assert(bool c, const char *label) {
  vcn::asserts()++;
  if (!c) vcn::report(label, "");
}
inline void vc_do_lemma(bool c, const char *label) { vc_do_assert(c, label); }
inline void vc_do_eq(double a, double b, double tol, const char *label) {
  vcn::asserts()++;
  if (!(std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b))))
    vcn::report(label, " [" + vcn::fmt(a) + " != " + vcn::fmt(b) + "]");
}
inline void vc_do_eqlemma(double a, double b, double tol, const char *label) { vc_do_eq(a, b, tol, label); }
inline void vc_do_le(double a, double b, double tol, const char *label) {
  vcn::asserts()++;
  if (!(a <= b + tol * (1 + std::fabs(a) + std::fabs(b))))
    vcn::report(label, " [" + vcn::fmt(a) + " > " + vcn::fmt(b) + "]");
}
inline void vc_do_cover(const char *) {}
inline void vc_do_config(const char *) {}
inline bool vc_symbolic(void) { return false; }
}

// main: vcnative replay <proof> <file>     file: lines  name=value
//       vcnative random <proof> <n> <seed> <seconds> <outfile>
inline void vcn_run(void (*fn)()) {
  vcn::counts().clear();
  vcn::used().clear();
  vcn::firstfail().clear();
  vcn::fails() = 0;
  try {
    fn();
  } catch (vcn::Skip &) {
    if (!vcn::fails()) throw;
  } catch (std::exception &e) {
    vcn::report("no-exception", std::string(" [uncaught exception: ") + e.what() + "]");
  } catch (...) {
    vcn::report("no-exception", " [uncaught exception]");
  }
}
#include <ctime>
#include <csignal>
#include <ucontext.h>
#ifdef VC_LOGGING
#include "smash/logging.h"
#endif
#include <unistd.h>
inline std::string &vcn_out() {
  static std::string s;
  return s;
}
inline void vcn_dump(const std::string &what) {
  std::string o = "FAIL " + what + "\n";
  for (auto &p : vcn::used()) o += p.first + "=" + p.second + "\n";
  if (!vcn_out().empty()) {
    std::ofstream f(vcn_out());
    f << o;
  }
  std::printf("%s", o.c_str());
  std::fflush(stdout);
}
// a jump to address 0 is a call of a function that was not linked in: the run
// says nothing then (exit code 3), the runner links everything and tries again
extern "C" inline void vcn_segv(int s, siginfo_t *i, void *u) {
#ifndef VC_EVERYTHING
  if (reinterpret_cast<uintptr_t>(i->si_addr) < 65536) _exit(3);
#endif
  if (reinterpret_cast<ucontext_t *>(u)->uc_mcontext.gregs[REG_RIP] == 0) _exit(3);
  vcn_dump("crash: signal " + std::to_string(s));
  _exit(1);
}
extern "C" inline void vcn_sig(int s) {
  vcn_dump("crash: signal " + std::to_string(s));
  _exit(1);
}
#ifndef VC_NO_MAIN
int main(int argc, char **argv) {
  if (argc < 4) return 2;
  std::string mode = argv[1], name = argv[2];
  struct sigaction sa = {};
  sa.sa_sigaction = vcn_segv;
  sa.sa_flags = SA_SIGINFO;
  sigaction(SIGSEGV, &sa, nullptr);
#ifdef VC_LOGGING
  for (auto &l : smash::logg) l.setVerbosity(einhard::OFF);
#endif
  std::signal(SIGABRT, vcn_sig);
  std::signal(SIGFPE, vcn_sig);
  std::signal(SIGILL, vcn_sig);
  std::signal(SIGBUS, vcn_sig);
  std::signal(SIGALRM, vcn_sig);
  void (*fn)() = nullptr;
  for (auto &r : vcn::regs())
    if (name == r.name) fn = r.fn;
  if (!fn) return 2;
  if (mode == "replay") {
    std::ifstream f(argv[3]);
    std::string l;
    while (std::getline(f, l)) {
      auto e = l.rfind('=');
      if (l.empty() || l[0] == '#' || e == std::string::npos) continue;
      vcn::fixed()[l.substr(0, e)] = l.substr(e + 1);
    }
    // inputs the counterexample leaves open are drawn at random
    int tries = argc > 4 ? std::atoi(argv[4]) : 50;
    alarm(60);
    for (int t = 0; t < tries; t++) {
      try {
        vcn_run(fn);
      } catch (vcn::Skip &) {
        continue;
      }
      if (vcn::fails()) {
        vcn_dump(vcn::firstfail());
        return 1;
      }
    }
    std::printf("OK\n");
    return 0;
  }
  long n = std::atol(argv[3]);
  vcn::rng().seed(std::strtoull(argv[4], nullptr, 10));
  double secs = std::atof(argv[5]);
  if (argc > 6) vcn_out() = argv[6];
  std::clock_t t0 = std::clock();
  long done = 0, skipped = 0;
  for (long i = 0; i < n; i++) {
    if ((double)(std::clock() - t0) / CLOCKS_PER_SEC > secs) break;
    alarm(30);
    try {
      vcn_run(fn);
      done++;
    } catch (vcn::Skip &) {
      skipped++;
      continue;
    }
    if (vcn::fails()) {
      vcn_dump(vcn::firstfail());
      return 1;
    }
  }
  std::printf("OK done=%ld skipped=%ld asserts=%ld\n", done, skipped, vcn::asserts());
  return 0;
}
#endif
