// Shared helpers of the native replay / bounded-check programs.  They compile
// the real headers of /repo against /verif/stubs and compare with an
// independent oracle written from the property text.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <cstring>
#include <string>
#include <vector>
#include <random>
#include <sstream>
#include <functional>
struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  std::uint64_t u() { std::uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  int in(int a, int b) { return a + (int)(u() % (std::uint64_t)(b - a + 1)); }   // inclusive
  bool coin() { return u() & 1; }
  bool chance(int n) { return u() % n == 0; }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + u() % l.size()); }
};
inline std::string g_ctx;
inline long g_cases = 0, g_distinct = 0;
#define CTX(...) do { char b_[4096]; snprintf(b_, sizeof b_, __VA_ARGS__); g_ctx = b_; } while (0)
#define FAIL(...) do { printf("FAIL %s :: ", g_ctx.c_str()); printf(__VA_ARGS__); printf("\n"); fflush(stdout); std::_Exit(1); } while (0)
// called by sanitizers / abort: name the input that was being run
extern "C" inline void lcv_on_death() { printf("FAIL %s :: sanitizer or abort\n", g_ctx.c_str()); fflush(stdout); }
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
// a failed assertion of a library
inline void lcv_on_abort(int) { lcv_on_death(); std::_Exit(1); }
struct Init { Init() { signal(SIGABRT, lcv_on_abort); setvbuf(stdout, nullptr, _IOLBF, 0); if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(lcv_on_death); } } static init_;
inline int finish() { printf("OK cases=%ld nontrivial=%ld\n", g_cases, g_distinct); return 0; }
inline int cdiv32(int n) { return (n + 31) / 32; }
inline bool bitof(std::int32_t w, int k) { return ((std::uint32_t)w >> k) & 1; }
inline float rfloat(Rng& r) {
  switch (r.in(0, 9)) {
    case 0: return 0.0f; case 1: return -0.0f; case 2: return 1e-42f; case 3: return -1e-42f;
    case 4: return __builtin_inff(); case 5: return -__builtin_inff(); case 6: return __builtin_nanf("");
    default: return (float)(r.in(-1000, 1000)) / 37.0f;
  }
}
