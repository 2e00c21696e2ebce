#include "texts.hpp"
#include <stdex/string.hpp>
using namespace orc;
struct num { bool neg, over; unsigned __int128 v; size_t end; };
template<class T> int dg(T c) { return c >= '0' && c <= '9' ? (int)c - '0' : c >= 'A' && c <= 'Z' ? (int)c - 55 : c >= 'a' && c <= 'z' ? (int)c - 87 : 99; }
template<class T> num ref(const std::basic_string<T> &t, int radix, int W) {
	num n = { false, false, 0, 0 }; size_t i = 0, E = t.size(); auto at = [&](size_t k) { return k < E ? t[k] : (T)0; };
	while (i < E && (at(i) == ' ' || (at(i) >= '\t' && at(i) <= '\r'))) i++;
	if (at(i) == '+') i++; else if (at(i) == '-') n.neg = true, i++;
	bool x = at(i) == '0' && (at(i + 1) == 'x' || at(i + 1) == 'X');
	if (radix == 16) { if (x) i += 2; } else if (!radix) { if (x) i += 2, radix = 16; else if (at(i) == '0') i++, radix = 8; else radix = 10; }
	unsigned __int128 lim = (unsigned __int128)1 << W;
	for (; i < E && dg(at(i)) < radix; i++) { n.v = n.v * radix + dg(at(i)); if (n.v >= lim) n.over = true, n.v = lim; }
	n.end = i; return n; }
template<class T, class S, class U, class FS, class FU> void run(FS fs, FU fu, const char *nm) {
	CASE(); int W = sizeof(S) * 8; int radix = chance(1, 3) ? 0 : chance(1, 3) ? 16 : 2 + rnd(35); std::basic_string<T> s; for (size_t n = rnd(3); n--;) s += (T)" \t\n\r\v\f"[rnd(6)]; if (chance(1, 2)) s += (T)"+-"[rnd(2)]; if (chance(1, 3)) { s += (T)'0'; if (chance(1, 2)) s += (T)"xX"[rnd(2)]; }
	if (chance(1, 2)) { unsigned __int128 v = ((unsigned __int128)1 << (W - rnd(2))) + rnd(5) - 2; int r = radix ? radix : 10; std::basic_string<T> d; do { int q = (int)(v % r); d.insert(d.begin(), (T)(q < 10 ? '0' + q : (rnd(2) ? 'a' : 'A') + q - 10)); v /= r; } while (v); if (chance(1, 3)) d += (T)'0'; s += d; }
	else for (size_t n = rnd(12); n--;) s += (T)"0123456789abcdefzZAF"[rnd(radix && radix <= 10 ? radix : 20)];
	if (chance(1, 2)) { s += (T)" -:/@[`{gx"[rnd(10)]; if (chance(1, 3)) s += (T)'1'; } if (chance(1, 10)) s.insert(rnd(s.size() + 1), 1, (T)0); if (chance(1, 4)) s.resize(rnd(s.size() + 1));
	std::basic_string<T> z = cut(s); buf<T> b(s, false); num n = ref(z, radix, W); unsigned __int128 one = 1, half = one << (W - 1); size_t e = 77; S w = n.neg ? (n.v > half ? (S)half : (S)(0 - n.v)) : (n.v >= half ? (S)(half - 1) : (S)n.v); S g = fs((const T*)b, s.size(), &e, radix);
	if (g != w || e != n.end) fail(nm, "signed %d bits radix %d text %s: got %lld end %zu expected %lld end %zu", W, radix, hexv(s).c_str(), (long long)g, e, (long long)w, n.end);
	U uw = n.over ? (n.neg ? (U)0 : (U)-1) : n.neg ? (U)(0 - n.v) : (U)n.v; e = 77; U ug = fu((const T*)b, s.size(), &e, radix); if (ug != uw || e != n.end) fail(nm, "unsigned %d bits radix %d text %s: got %llu end %zu expected %llu end %zu", W, radix, hexv(s).c_str(), (unsigned long long)ug, e, (unsigned long long)uw, n.end);
	if (fu((const T*)b, s.size(), nullptr, radix) != uw) fail(nm, "without end: text %s", hexv(s).c_str());
	if (W == 32) { T a[12]; for (size_t i = 0; i < 12; i++) a[i] = i < s.size() ? s[i] : (T)0; num m = ref(cut(std::basic_string<T>(a, 12)), radix, 32); if (stdex::strtou32(a, &e, radix) != (m.over ? m.neg ? 0u : ~0u : m.neg ? 0u - (unsigned)m.v : (unsigned)m.v) || e != m.end) fail("strtou32-array", "text %s radix %d", hex(a, sizeof a).c_str(), radix); }
}
template<class T> void all() {
#define R(W, S, U) run<T, S, U>([](const T *s, size_t n, size_t *e, int r) { return stdex::strto##W<T>(s, n, e, r); }, [](const T *s, size_t n, size_t *e, int r) { return stdex::strtou##W<T>(s, n, e, r); }, "strto" #W)
	R(8, int8_t, uint8_t); R(16, int16_t, uint16_t); R(32, int32_t, uint32_t); R(64, int64_t, uint64_t); R(i, ptrdiff_t, size_t); }
int main() { init(); while (more()) { all<char>(); all<wchar_t>(); all<char16_t>(); } return finish(); }
