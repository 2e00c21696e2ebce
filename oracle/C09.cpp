#include "oracle.hpp"
#include <stdex/interval.hpp>
using namespace orc;
template<class T> void t(const char *n) { CASE(); typedef stdex::interval<T> I; T a = (T)rnd(chance(1,2) ? 6 : 1000), b = (T)rnd(chance(1,2) ? 6 : 1000), x = (T)rnd(chance(1,2) ? 7 : 1000), d = (T)rnd(5), e = (T)rnd(5); if ((T)-1 < 0 && chance(1,2)) { a = (T)(a - 3); b = (T)(b - 3); x = (T)(x - 3); } else if (chance(1,4)) { a = (T)edge(); x = a; b = (T)(a + (T)rnd(4)); if (b < a) b = a; }
	I i(a, b), j(d, e); long long la = (long long)a, lb = (long long)b, lx = (long long)x; 
#define R(c) CHECK(c, "interval", "%s [%lld,%lld) x=%lld other [%lld,%lld): " #c, n, la, lb, lx, (long long)d, (long long)e)
	R(i.size() == (a <= b ? (T)(b - a) : (T)0)); R(i.empty() == (a >= b)); R((bool)i == (a <= b)); R(i.contains(x) == (a <= x && x < b)); R((i == j) == (a == d && b == e)); R((i != j) == !(a == d && b == e));
	I k = i + j; R(k.start == (T)(a + d) && k.end == (T)(b + e)); k = i - j; R(k.start == (T)(a - d) && k.end == (T)(b - e)); k = i.operator+(d); R(k.start == (T)(a + d) && k.end == (T)(b + d)); k = i.operator-(d); R(k.start == (T)(a - d) && k.end == (T)(b - d));
	I m = i; k = (m += d); R(k.start == (T)(a + d) && m.end == (T)(b + d) && m.start == k.start && k.end == m.end); m = i; k = (m -= d); R(k.start == (T)(a - d) && m.end == (T)(b - d) && m.start == k.start && k.end == m.end);
	m = i; k = m++; R(k.start == a && k.end == b && m.start == (T)(a + 1) && m.end == (T)(b + 1)); m = i; k = ++m; R(k.start == (T)(a + 1) && m.start == (T)(a + 1) && m.end == (T)(b + 1) && k.end == m.end); m = i; k = m--; R(k.start == a && k.end == b && m.start == (T)(a - 1) && m.end == (T)(b - 1)); m = i; k = --m; R(k.start == (T)(a - 1) && m.end == (T)(b - 1) && k.end == m.end && m.start == k.start);
	m = i; m.invalidate(); R(!m && m.size() == 0 && !m.contains(x) && m.empty()); I z; R(!z && z.size() == 0 && !z.contains(x)); I o(x); R(o.start == x && o.end == x && o && o.empty()); }
int main() { init(); while (more()) for (int i = 0; i < 1000; i++) { t<size_t>("size_t"); t<int>("int"); t<int64_t>("int64"); t<uint16_t>("u16"); } return finish(); }
