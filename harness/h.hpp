// shared by every harness: seeded inputs, time budget, failure report
#pragma once
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <random>
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <set>
#include <algorithm>
#include <csignal>
#include <unistd.h>
extern "C" void __asan_set_death_callback(void (*)()) __attribute__((weak));
namespace H {
inline std::mt19937_64 &rng() { static std::mt19937_64 r(getenv("HARNESS_SEED") ? strtoull(getenv("HARNESS_SEED"), 0, 10) : 1); return r; }
inline long rnd(long lo, long hi) { return lo + (long)(rng()() % (unsigned long)(hi - lo + 1)); }
inline bool flip(int pct = 50) { return rnd(0, 99) < pct; }
inline double budget() { return getenv("HARNESS_SECONDS") ? atof(getenv("HARNESS_SECONDS")) : 5.0; }
inline double now() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }
inline double t0() { static double t = now(); return t; }
inline bool more(double frac = 1.0) { return now() - t0() < budget() * frac; }
inline std::string &trace() { static std::string t; return t; }
inline void note(const char *f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); trace() += b; trace() += "\n"; }
inline void clear() { trace().clear(); }
inline void fail(const char *f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); printf("FAIL %s\ninput/history:\n%s", b, trace().size() > 20000 ? (trace().substr(0, 4000) + "\n...\n" + trace().substr(trace().size() - 12000)).c_str() : trace().c_str()); fflush(stdout); _exit(1); }
#define CHECK(c, ...) do { if (!(c)) H::fail(__VA_ARGS__); } while (0)
inline void stat(const char *k, long v) { printf("STAT %s %ld\n", k, v); }
inline void sample(const std::string &s) { static int n = 0; if (n++ < 5) { std::string o; for (char c : s) o += c == '\n' ? ';' : c; printf("SAMPLE %s\n", o.substr(0, 800).c_str()); } }
// asserts and aborts of the code under test are failures with the current history
inline void on_abort(int) { fail("the code under test aborted (assertion)"); }
}
namespace H {
inline void dying() { printf("FAIL memory or undefined-behaviour error in the code under test\ninput/history:\n%s", trace().substr(0, 12000).c_str()); fflush(stdout); }
inline void init() { t0(); signal(SIGABRT, on_abort); signal(SIGFPE, [](int) { fail("arithmetic fault in the code under test"); }); if (__asan_set_death_callback) __asan_set_death_callback(dying); }
}
