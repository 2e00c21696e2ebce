#include "oracle.hpp"
#include <stdex/ring.hpp>
#include <thread>
#include <signal.h>
#include <deque>
#include <atomic>
using namespace orc;
// sequential histories of non-blocking calls against a queue
template<class T, size_t N> static void seq() { CASE();
	auto *r = new stdex::ring<T, N>; std::deque<T> q; uint64_t next = rnd(); T *base = nullptr; bool quit = false; T *bp = nullptr; size_t bn = 0; char log[400]; size_t ll = 0; log[0] = 0;
	for (int st = 0; st < 40; st++) { int op = (int)rnd(3); if (ll < 350) ll += sprintf(log + ll, "%d", op);
		if (op == 0 && (q.size() < N || quit)) { T *p; size_t n; std::tie(p, n) = r->back();
			if (!p) { CHECK(quit && q.size() == N, "back-null", "cap %zu stored %zu ops %s", N, q.size(), log); continue; }
			CHECK(n >= 1 && n <= N - q.size() && p >= r->m_data && p + n <= r->m_data + N, "back", "cap %zu stored %zu offered %zu at %td ops %s", N, q.size(), n, p - r->m_data, log);
			size_t k = chance(1, 3) ? n : rnd(n + 1); for (size_t i = 0; i < k && i < N; i++) { p[i] = (T)next; q.push_back((T)next); next = next * 6364136223846793005ull + 1442695040888963407ull; } r->push(k); if (ll < 350) ll += sprintf(log + ll, "+%zu ", k); }
		else if (op == 1 && (q.size() || quit)) { T *p; size_t n; std::tie(p, n) = r->front();
			if (!p) { CHECK(quit && q.empty(), "front-null", "cap %zu stored %zu ops %s", N, q.size(), log); continue; }
			CHECK(n >= 1 && n <= q.size() && p >= r->m_data && p + n <= r->m_data + N, "front", "cap %zu stored %zu offered %zu at %td ops %s", N, q.size(), n, p - r->m_data, log);
			size_t k = chance(1, 3) ? n : rnd(n + 1); for (size_t i = 0; i < k && q.size(); i++) { CHECK(p[i] == q.front(), "order", "cap %zu item %zu ops %s", N, i, log); q.pop_front(); } r->pop(k); if (ll < 350) ll += sprintf(log + ll, "-%zu ", k); }
		else if (op == 2) { if (q.empty()) r->sync(); if (chance(1, 40)) { r->quit(); quit = true; r->sync(); } } }
	delete r; }
// two threads, cancellation of waiting sides
template<size_t N> static void par() { CASE(); alarm(20);
	stdex::ring<uint32_t, N> r; std::atomic<bool> bad{ false }; uint64_t s = rnd(); size_t total = rnd(400);
	std::thread w([&] { uint32_t v = 0; uint64_t x = s | 1; while (v < total) { uint32_t *p; size_t n; std::tie(p, n) = r.back(); if (!p || !n) { bad = true; break; } x ^= x << 13; x ^= x >> 7; x ^= x << 17; size_t k = std::min<size_t>(1 + x % n, total - v); for (size_t i = 0; i < k; i++) p[i] = v++; r.push(k); } r.sync(); r.quit(); });
	uint32_t e = 0; for (;;) { uint32_t *p; size_t n; std::tie(p, n) = r.front(); if (!p) break; size_t k = n > 3 ? n - 1 : n; for (size_t i = 0; i < k; i++) if (p[i] != e++) bad = true; r.pop(k); } w.join();
	CHECK(!bad && e == total, "threads", "cap %zu seed %llu items %zu received %u", N, (unsigned long long)s, total, e);
	stdex::ring<uint32_t, N> f; std::thread a([&] { auto t = f.front(); if (std::get<0>(t)) bad = true; }); if (chance(1, 2)) std::this_thread::yield(); f.quit(); a.join();
	stdex::ring<uint32_t, N> g; for (size_t left = N; left;) { auto t = g.back(); g.push(std::get<1>(t)); left -= std::get<1>(t); } std::thread b([&] { auto t = g.back(); if (std::get<0>(t)) bad = true; }); g.quit(); b.join();
	CHECK(!bad, "cancel", "cap %zu", N); alarm(0); }
int main() { init(); signal(SIGALRM, [](int) { static const char m[] = "FAIL key=hang a waiting side was never woken\nCASES 1\n"; if (write(1, m, sizeof(m) - 1)) {} _exit(1); });
	while (more()) { for (int i = 0; i < 50; i++) { seq<uint8_t, 1>(); seq<uint32_t, 2>(); seq<uint64_t, 7>(); seq<uint32_t, 8>(); seq<uint8_t, 50>(); } par<1>(); par<7>(); } return finish(); }
