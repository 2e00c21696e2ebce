#include "oracle.hpp"
#include <deque>
#include <new>
static long g_live = 0;
struct E { uint64_t v; E(uint64_t x = 0) : v(x) { g_live++; } E(const E &o) : v(o.v) { g_live++; } E &operator=(const E &) = default; ~E() { g_live--; } bool operator==(const E &o) const { return v == o.v; } };
#include <stdex/vector_queue.hpp>
using namespace orc;
typedef stdex::vector_queue<E> Q; typedef std::deque<uint64_t> D;
static std::string log_;
static void cmp(Q &q, const D &d, size_t cap, const char *w) { const Q &c = q;
	CHECK(q.size() == d.size() && q.capacity() == cap && q.empty() == d.empty(), "size", "cap=%zu ops=%s (%s): size %zu expected %zu", cap, log_.c_str(), w, q.size(), d.size());
	if (q.size() != d.size()) return;
	for (size_t i = 0; i < d.size(); i++) CHECK(q.at(i).v == d[i] && q[i].v == d[i] && c.at(i).v == d[i] && c[i].v == d[i], "sequence", "cap=%zu ops=%s (%s): element %zu is %llu expected %llu", cap, log_.c_str(), w, i, (unsigned long long)q[i].v, (unsigned long long)d[i]);
	bool t = false; try { q.at(d.size()); } catch (const std::invalid_argument &) { t = true; } CHECK(t, "at-throws", "cap=%zu ops=%s: at(size) does not throw", cap, log_.c_str());
	if (!d.empty()) { CHECK(q.front().v == d.front() && c.front().v == d.front() && q.back().v == d.back() && c.back().v == d.back() && q.at_abs(q.head()).v == d.front() && q.at_abs(q.tail()).v == d.back(), "ends", "cap=%zu ops=%s (%s): wrong front/back", cap, log_.c_str(), w); }
	else { int n = 0; try { q.front(); } catch (const std::invalid_argument &) { n++; } try { q.back(); } catch (const std::invalid_argument &) { n++; } try { q.pop_back(); } catch (const std::invalid_argument &) { n++; } try { q.pop_front(); } catch (const std::invalid_argument &) { n++; } CHECK(n == 4, "empty-throws", "cap=%zu ops=%s: an end of an empty queue does not throw", cap, log_.c_str()); } }
int main() { init(); while (more()) for (int it = 0; it < 200; it++) { CASE(); log_.clear(); long live0 = g_live; { size_t cap = 1 + rnd(chance(1,4) ? 40 : 8); Q q(cap); D d; size_t n = rnd(60);
	for (size_t j = 0; j < n; j++) { uint64_t v = rnd(1000); int op = (int)rnd(11); char b[40]; sprintf(b, " %d:%llu", op, (unsigned long long)v); log_ += b; E e(v); size_t s;
		switch (op) {
		case 0: case 1: s = op ? q.push_back(e) : q.push_back(std::move(e)); d.push_back(v); if (d.size() > cap) d.pop_front(); CHECK(s == q.tail(), "slot", "cap=%zu ops=%s: push_back returns %zu", cap, log_.c_str(), s); break;
		case 2: case 3: s = op == 2 ? q.push_front(e) : q.push_front(std::move(e)); d.push_front(v); if (d.size() > cap) d.pop_back(); CHECK(s == q.head(), "slot", "cap=%zu ops=%s: push_front returns %zu", cap, log_.c_str(), s); break;
		case 4: if (!d.empty()) { q.pop_back(); d.pop_back(); } break;
		case 5: if (!d.empty()) { q.pop_front(); d.pop_front(); } break;
		case 6: if (chance(1,4)) { q.clear(); d.clear(); } break;
		case 7: { Q c(q); cmp(c, d, cap, "copy"); if (c.size()) c[0] = E(12345); cmp(q, d, cap, "source of copy"); break; }
		case 8: { Q c(std::move(q)); cmp(c, d, cap, "moved"); CHECK(q.empty() && q.capacity() == 0, "moved-from", "moved-from queue not empty"); q = std::move(c); break; }
		case 9: { size_t cc = 1 + rnd(9); Q c(cc); for (size_t k = rnd(12); k--;) c.push_front(E(k)); c = q; cmp(c, d, cap, "copy assigned"); Q &self = q; q = self; break; }
		case 10: { size_t cc = 1 + rnd(9); Q c(cc); for (size_t k = rnd(12); k--;) c.push_back(E(k)); Q t(q); c = std::move(t); cmp(c, d, cap, "move assigned"); break; }
		}
		cmp(q, d, cap, "queue"); } }
	CHECK(g_live == live0, "leak", "ops=%s: %ld elements not destroyed", log_.c_str(), g_live - live0); }
	return finish(); }
