// Native side of the specification interface: the same harness, compiled
// against the real libstdc++ and executed.  Inputs come from a tape (replay of
// a verifier model) or from a seeded generator.
#ifndef VC_NATIVE_H_
#define VC_NATIVE_H_
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <random>
#include <string>
#include <vector>

namespace vc_native {
struct Discard {};
struct Failure { std::string prop, label; };

struct Tape {
  bool replay = false;
  std::vector<std::uint64_t> in;
  std::size_t pos = 0;
  std::mt19937_64 rng;
  std::vector<std::uint64_t> log;   // values handed out, so that a random failure can be replayed
  std::uint64_t raw() {
    if (pos >= in.size()) throw Discard();
    return in[pos++];
  }
  std::uint64_t rec(std::uint64_t v) { log.push_back(v); return v; }
  std::uint64_t below(std::uint64_t n) { return n ? rng() % n : 0; }
  double unit() { return static_cast<double>(rng() >> 11) * 0x1p-53; }
  float f32() {
    if (replay) { std::uint32_t v = static_cast<std::uint32_t>(raw()); float f; std::memcpy(&f, &v, 4); return f; }
    float f = static_cast<float>(gen(32));
    std::uint32_t v; std::memcpy(&v, &f, 4); rec(v);
    return f;
  }
  double f64() {
    if (replay) { std::uint64_t v = raw(); double f; std::memcpy(&f, &v, 8); return f; }
    double f = gen(64);
    std::uint64_t v; std::memcpy(&v, &f, 8); rec(v);
    return f;
  }
  std::uint32_t i32() {
    if (replay) return static_cast<std::uint32_t>(raw());
    std::uint32_t v;
    switch (below(8)) {
      case 0: v = static_cast<std::uint32_t>(rng()); break;
      case 1: { static const int k[] = {0, 1, -1, 2, 3, 999, 1000, 1001, 9999, 10000, 10001, 2147483647, -2147483647 - 1, 100000}; v = static_cast<std::uint32_t>(k[below(14)]); break; }
      default: v = static_cast<std::uint32_t>(static_cast<int>(below(24)) - 2);
    }
    return static_cast<std::uint32_t>(rec(v));
  }
  std::uint64_t i64() { if (replay) return raw(); return rec(below(4) ? below(32) : rng()); }
  bool b() { if (replay) return raw() & 1; return rec(rng() & 1); }
  std::uint64_t len() {
    if (replay) { std::uint64_t n = raw(); if (n > 100000) throw Discard(); return n; }
    return rec(below(3) ? below(6) : below(24));
  }
  double gen(int w) {
    switch (below(24)) {
      case 0: { static const double k[] = {0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 3.14159265358979, 6.28318530717959, 1e-3, 1000.0, 10000.0}; return k[below(11)]; }
      case 1: { static const double k[] = {1e30, -1e30, 3.4e38, 1e-38, 1e-45, 1e20, -1e20, 1e9}; return k[below(8)]; }
      case 2: switch (below(4)) { case 0: return std::numeric_limits<double>::quiet_NaN(); case 1: return HUGE_VAL; case 2: return -HUGE_VAL; default: return -1; }
      case 3: case 4: case 5: return static_cast<double>(static_cast<int>(below(12)) - 4);
      case 6: case 7: return (unit() - .5) * 200;
      case 8: case 9: return unit() * 7;
      case 10: return (unit() - .5) * 2e-3;
      default: return below(3) ? unit() : (unit() - .5) * 10;
    }
  }
};
inline Tape& tape() { static Tape t; return t; }
inline const char*& only() { static const char* p = nullptr; return p; }
inline double scale = 1e-30;
inline std::uint64_t& nchecks() { static std::uint64_t n = 0; return n; }
inline void check(bool c, const char* prop, const char* label) {
  if (only() && std::strcmp(only(), prop) != 0) { if (!c) throw Discard(); return; }
  ++nchecks();
  if (!c) throw Failure{prop, label};
}
inline void cover(const char*) {}
}  // namespace vc_native

// Driver: main(argc, argv) = harness PROP replay FILE | harness PROP random SEED SECONDS LOGFILE
#include <chrono>
template <class F>
int vc_native_main(int argc, char** argv, F body) {
  using namespace vc_native;
  only() = argc > 1 && std::strcmp(argv[1], "*") ? argv[1] : nullptr;
  if (argc > 3 && !std::strcmp(argv[2], "replay")) {
    FILE* f = std::fopen(argv[3], "r");
    if (!f) return 2;
    char buf[64];
    while (std::fscanf(f, "%63s", buf) == 1) tape().in.push_back(std::strtoull(buf, nullptr, 16));
    std::fclose(f);
    tape().replay = true;
    try { body(); } catch (const Discard&) { std::printf("DISCARD\n"); return 3; }
    catch (const Failure& e) { std::printf("FAIL %s: %s\n", e.prop.c_str(), e.label.c_str()); return 1; }
    std::printf("PASS %llu checks\n", static_cast<unsigned long long>(nchecks()));
    return 0;
  }
  std::uint64_t seed = argc > 3 ? std::strtoull(argv[3], nullptr, 10) : 1;
  double secs = argc > 4 ? std::atof(argv[4]) : 1;
  const char* logf = argc > 5 ? argv[5] : nullptr;
  auto t0 = std::chrono::steady_clock::now();
  unsigned long long n = 0, disc = 0;
  for (;; ++n) {
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
    tape().rng.seed(seed * 1000003 + n);
    tape().log.clear();
    if (logf) {   // so that a crash can be replayed: seed of the current case
      static FILE* cf = std::fopen(logf, "w");
      if (cf) { std::rewind(cf); std::fprintf(cf, "%020llu\n", static_cast<unsigned long long>(seed * 1000003 + n)); std::fflush(cf); }
    }
    try { body(); } catch (const Discard&) { ++disc; }
    catch (const Failure& e) {
      std::printf("FAIL %s: %s\ncase-seed %llu\ntape", e.prop.c_str(), e.label.c_str(), static_cast<unsigned long long>(seed * 1000003 + n));
      for (auto v : tape().log) std::printf(" %llx", static_cast<unsigned long long>(v));
      std::printf("\n");
      return 1;
    }
  }
  std::printf("PASS %llu cases %llu discarded %llu checks\n", n, disc, static_cast<unsigned long long>(nchecks()));
  return 0;
}
#endif
