// operator delete is replaced by one that looks at the block before it is released; compiled with -O2 so that the optimiser may drop dead stores
#include "oracle.hpp"
#include <new>
extern bool g_on; extern size_t g_bad, g_seen, g_badat, g_badn, g_nb;
#include <stdex/memory.hpp>
#include <stdex/string.hpp>
#include <vector>
#include <string>
using namespace orc;
struct S24 { uint64_t a, b, c; };
static void __attribute__((noinline)) fill(void *p, size_t n) { memset(p, 0x5a + (int)rnd(100), n); __asm__ volatile("" : : "r"(p) : "memory"); }
static void report(const char *what, size_t n) { CASE(); g_on = false; CHECK(!g_bad, what, "%s of %zu: byte %zu of the %zu byte block was not zero when the block was given back", what, n, g_badat, g_badn); CHECK(g_seen, what, "%s of %zu: no block was given back", what, n); g_bad = g_seen = 0; g_nb = 0; }
template<class T> void __attribute__((noinline)) raw(size_t n) { g_on = true; stdex::sanitizing_allocator<T> a; T *p = a.allocate(n); fill(p, n * sizeof(T)); a.deallocate(p, n); report("deallocate", n); }
template<class T> void __attribute__((noinline)) vec(size_t n) { g_on = true; { std::vector<T, stdex::sanitizing_allocator<T>> v; for (size_t i = 0; i < n; i++) { T x; fill(&x, sizeof x); v.push_back(x); } } report("vector", n); }
template<class T> void __attribute__((noinline)) str(size_t n) { g_on = true; { std::basic_string<T, std::char_traits<T>, stdex::sanitizing_allocator<T>> s; s.reserve(n); fill(&s[0], n * sizeof(T)); for (int i = 0; i < 3; i++) s.append(n, (T)'x'); } report("string", n); }
template<size_t N> void __attribute__((noinline)) blob() { g_on = true; auto b = new stdex::sanitizing_blob<N>; for (size_t i = 0; i < N; i++) CHECK(!((volatile unsigned char*)b->m_data)[i], "new", "a new blob of %zu holds no zero at %zu", N, i); fill(b->m_data, N); delete b; report("blob", N); }
template<size_t N> void __attribute__((noinline)) vblob(size_t n) { g_on = true; { std::vector<stdex::sanitizing_blob<N>> v(n); for (auto &x : v) fill(x.m_data, N); } report("vector of blobs", n); }
template<size_t N> void __attribute__((noinline)) sblob() { alignas(16) unsigned char buf[sizeof(stdex::sanitizing_blob<N>)]; __asm__ volatile("" : : "r"(buf) : "memory"); auto b = new (buf) stdex::sanitizing_blob<N>; fill(b->m_data, N); b->~sanitizing_blob(); __asm__ volatile("" : : "r"(buf) : "memory"); CASE(); for (size_t i = 0; i < N; i++) CHECK(!((volatile unsigned char*)buf)[i], "blob", "byte %zu of a destroyed blob of %zu is not zero", i, N); }
int main() {
	init();
	do {
		size_t n = 1 + size(3000);
		raw<unsigned char>(n); raw<wchar_t>(n); raw<uint64_t>(n); raw<S24>(n); raw<char16_t>(n);
		vec<unsigned char>(n % 300 + 1); vec<S24>(n % 300 + 1); vec<wchar_t>(n % 300 + 1);
		str<char>(n + 40); str<wchar_t>(n + 40);
		blob<1>(); blob<7>(); blob<16>(); blob<33>(); blob<255>(); blob<4096>(); vblob<16>(n % 50 + 1); vblob<5>(n % 50 + 1); sblob<1>(); sblob<16>(); sblob<33>(); sblob<1000>();
	} while (more());
	return finish();
}
