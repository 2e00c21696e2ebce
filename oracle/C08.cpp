#include "oracle.hpp"
#include <stdex/mapping.hpp>
using namespace orc;
typedef stdex::mapping<size_t> M;
static size_t ref(const std::vector<M> &v, size_t x, bool inv) { size_t best = SIZE_MAX; for (size_t i = 0; i < v.size(); i++) { if ((inv ? v[i].from : v[i].to) <= x) best = i; } if (v.empty()) return x; if (best == SIZE_MAX) { size_t o = inv ? v[0].to : v[0].from; return x < o ? x : o; }
	return inv ? v[best].to + (x - v[best].from) : v[best].from + (x - v[best].to); }
int main() { init(); while (more()) for (int it = 0; it < 500; it++) { std::vector<M> v; size_t n = size(chance(1,20) ? 300 : 12), f = rnd(5), t = rnd(5), step = chance(1,2) ? 2 : 20;
	for (size_t i = 0; i < n; i++) { v.push_back(M(f, t)); f += 1 + rnd(step); t += 1 + rnd(step); } if (chance(1,10) && n) { size_t o = SIZE_MAX - (f > t ? f : t) - 10; for (auto &m : v) { m.from += o; m.to += o; } }
	std::vector<M> cp(v);
	for (int j = 0; j < 8; j++) { CASE(); size_t x = n && chance(3,4) ? (chance(1,2) ? v[rnd(n)].from : v[rnd(n)].to) + rnd(3) - 1 : rnd(f + t + 5); std::string d; char b[64]; for (auto &m : v) { sprintf(b, "(%zu,%zu)", m.from, m.to); if (d.size() < 400) d += b; }
		size_t a = stdex::dst2src<size_t>(v, x), r = ref(v, x, false); CHECK(a == r, "dst2src", "anchors %s x=%zu -> %zu expected %zu", d.c_str(), x, a, r);
		a = stdex::src2dst<size_t>(v, x), r = ref(v, x, true); CHECK(a == r, "src2dst", "anchors %s x=%zu -> %zu expected %zu", d.c_str(), x, a, r);
		size_t h = n ? rnd(n) : 0, h0 = h; a = stdex::dst2src<size_t>(v, x, h), r = ref(v, x, false); CHECK(a == r && (!n || h < n), "dst2src-hint", "anchors %s x=%zu hint=%zu -> %zu expected %zu, hint after %zu", d.c_str(), x, h0, a, r, h);
		h0 = h = n ? rnd(n) : 0; a = stdex::src2dst<size_t>(v, x, h), r = ref(v, x, true); CHECK(a == r && (!n || h < n), "src2dst-hint", "anchors %s x=%zu hint=%zu -> %zu expected %zu, hint after %zu", d.c_str(), x, h0, a, r, h); } }
	return finish(); }
