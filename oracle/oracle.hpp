// Replay harness support: seeded generators, a time budget, FAIL lines with the concrete failing input.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <time.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <functional>
#include <stdexcept>
namespace orc {
	static uint64_t g_s = 1; static unsigned long long g_cases = 0; static double g_budget = 10; static double g_t0 = 0; static int g_fails = 0;
	static inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec*1e-9; }
	static inline void init() { const char *s = getenv("VERIF_SEED"), *b = getenv("ORACLE_TIME"); g_s = (s ? strtoull(s, 0, 10) : 1) * 0x9E3779B97F4A7C15ull + 12345; if (b) g_budget = atof(b); g_t0 = now(); setvbuf(stdout, 0, _IOLBF, 0); }
	static inline uint64_t rnd() { g_s ^= g_s << 13; g_s ^= g_s >> 7; g_s ^= g_s << 17; return g_s * 0x2545F4914F6CDD1Dull; }
	static inline uint64_t rnd(uint64_t n) { return n ? rnd() % n : 0; }
	static inline bool chance(unsigned n, unsigned d) { return rnd(d) < n; }
	// time left in phase: fraction f of the budget
	static inline bool more(double f = 1.0) { return g_fails < 5 && now() - g_t0 < g_budget * f; }
	static inline void fail(const char *key, const char *fmt, ...) { printf("FAIL key=%s ", key); va_list a; va_start(a, fmt); vprintf(fmt, a); va_end(a); printf("\n"); fflush(stdout); if (++g_fails >= 5) { printf("CASES %llu\n", g_cases); _exit(1); } }
	static inline int finish() { printf("CASES %llu\n", g_cases); fflush(stdout); _exit(g_fails ? 1 : 0); }
	static inline std::string hex(const void *p, size_t n) { std::string s; char b[3]; for (size_t i = 0; i < n && i < 200; i++) { sprintf(b, "%02x", ((const unsigned char*)p)[i]); s += b; } if (n > 200) s += "..."; return s; }
	static inline std::string hex(const std::string &s) { return hex(s.data(), s.size()); }
	template<class V> static inline std::string hexv(const V &v) { return hex(v.data(), v.size()*sizeof(v[0])); }
	static inline std::vector<uint8_t> bytes(size_t n) { std::vector<uint8_t> v(n); int m = (int)rnd(4); for (auto &x : v) x = m == 0 ? (uint8_t)rnd() : m == 1 ? (uint8_t)rnd(4) : m == 2 ? (uint8_t)(0xfc + rnd(4)) : (uint8_t)rnd(); return v; }
	// sizes biased to boundaries
	static inline size_t size(size_t mx) { switch (rnd(4)) { case 0: return rnd(mx < 5 ? mx + 1 : 5); case 1: return rnd(mx < 40 ? mx + 1 : 40); case 2: { size_t p = (size_t)1 << rnd(20); p += rnd(3); p -= 1; return p <= mx ? p : rnd(mx + 1); } default: return rnd(mx + 1); } }
	// 64-bit values biased to boundaries
	static inline uint64_t edge() { switch (rnd(6)) { case 0: return rnd(8); case 1: return 0 - rnd(8); case 2: return ((uint64_t)1 << rnd(64)) + rnd(5) - 2; case 3: return rnd() >> rnd(64); case 4: return ((uint64_t)1 << 63) + rnd(5) - 2; default: return rnd(); } }
}
#define CASE() (++orc::g_cases)
#define CHECK(c, key, ...) do { if (!(c)) orc::fail(key, __VA_ARGS__); } while (0)
