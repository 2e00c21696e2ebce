#include "texts.hpp"
#include <stdex/string.hpp>
using namespace orc;
template<class T, class U> std::basic_string<T> cv(const std::basic_string<U> &s) { std::basic_string<T> r; for (auto x : s) r += (T)x; return r; }
// destination: exactly sized heap block, filled with a canary or an initial text
template<class T> struct dst { std::unique_ptr<T[]> p; size_t n; std::basic_string<T> init; dst(size_t n_, const std::basic_string<T> &s) : n(n_), init(s) { p.reset(new T[n]); for (size_t i = 0; i < n; i++) p[i] = i < s.size() ? s[i] : i == s.size() ? (T)0 : (T)0x5a; if (init.size() > n) init.resize(n); } operator T*() { return p.get(); } };
template<class T> void is(const char *key, size_t got, dst<T> &d, const std::basic_string<T> &w, size_t term, const std::string &in) {
	bool ok = got == w.size(); for (size_t i = 0; ok && i < d.n; i++) { T e = i < w.size() ? w[i] : i == w.size() && term ? (T)0 : i < d.init.size() ? d.init[i] : i == d.init.size() ? (T)0 : (T)0x5a; ok = d.p[i] == e; }
	if (!ok) fail(key, "%s width %d: returned %zd, destination %s", in.c_str(), (int)sizeof(T), got, hex(d.p.get(), d.n * sizeof(T)).c_str()); }
template<class T, class U> void run() {
	typedef std::basic_string<T> S; typedef std::basic_string<U> V; CASE(); V s = text<U>(40, true); for (auto &x : s) if (x && !(T)x) x = (U)'q'; V z = cut(s); buf<U> b(s, false), bz(z, true); size_t n = s.size(), cap = size(50); S w = cv<T>(z), e; std::string in = "source " + hexv(s) + " capacity " + std::to_string(cap);
	{ dst<T> d(w.size() + 1, e); is("strcpy", stdex::strcpy((T*)d, (const U*)bz), d, w, 1, in); }
	{ bool t = z.size() < n; dst<T> d(z.size() + t, e); is("strncpy1", stdex::strncpy((T*)d, (const U*)b, n), d, w, t, in); }
	{ S x = w.substr(0, cap); dst<T> d(cap, e); is("strncpy", stdex::strncpy((T*)d, cap, (const U*)b, n), d, x, x.size() < cap, in); }
	S i0 = text<T>(20, false), f = i0 + w; in += " initial " + hexv(i0);
	{ dst<T> d(f.size() + 1, i0); is("strcat", stdex::strcat((T*)d, (const U*)bz), d, f, 1, in); }
	{ bool t = z.size() < n; dst<T> d(f.size() + 1, i0); is("strncat1", stdex::strncat((T*)d, (const U*)b, n), d, f, 1, in); (void)t; }
	if (cap > i0.size()) { S x = f.substr(0, cap); dst<T> d(cap, i0); is("strncat", stdex::strncat((T*)d, cap, (const U*)b, n), d, x, x.size() < cap, in); }
	else { S x = i0.substr(0, cap); dst<T> d(cap, i0); size_t r = stdex::strncat((T*)d, cap, (const U*)b, n); is("strncat-full", r, d, x, 0, in); }
	U sa[9]; T da[16], db[4]; V q; for (auto &x : sa) q += x = (U)"abcdefgh\0"[rnd(9)]; S c = cv<T>(cut(q)); for (auto &x : da) x = 0x5a; size_t r = stdex::strncpy(da, sa); if (r != c.size() || S(da, r) != c || (r < 16 && da[r])) fail("strncpy-array", "source %s", hexv(q).c_str());
	for (auto &x : db) x = 0x5a; r = stdex::strncpy(db, sa); c = c.substr(0, 4); if (r != c.size() || S(db, r) != c || (r < 4 && db[r])) fail("strncpy-array", "source %s capacity 4", hexv(q).c_str());
}
template<class T> void dup() { CASE(); typedef std::basic_string<T> S; S s = text<T>(40, true), z = cut(s); buf<T> b(s, false), bz(z, true);
	T *p = stdex::strdup((const T*)bz); if (S(p) != z) fail("strdup", "source %s", hexv(z).c_str()); delete[] p; p = stdex::strndup((const T*)b, s.size()); if (S(p) != z) fail("strndup", "source %s", hexv(s).c_str()); delete[] p;
	T a[16]; S t; for (auto &x : a) t += x = (T)"abcdefghijklmno\0"[rnd(16)]; p = stdex::strndup(a); if (S(p) != cut(t)) fail("strndup-array", "source %s", hexv(t).c_str()); delete[] p; }
static void wh() { CASE(); std::u16string t; size_t n = size(20); for (size_t i = 0; i < n; i++) t += chance(1, 15) ? (char16_t)0 : chance(1, 2) ? (char16_t)(0xd7ff + rnd(0x802)) : (char16_t)(1 + rnd(0x7f)); std::u16string z = cut(t); buf<char16_t> b(t, false), bz(z, true); size_t cap = size(25);
	auto cp = [](const std::u16string &s) { std::wstring w; for (size_t i = 0; i < s.size(); i++) if ((s[i] & 0xfc00) == 0xd800 && i + 1 < s.size() && (s[i + 1] & 0xfc00) == 0xdc00) { w += (wchar_t)(0x10000 + ((s[i] & 0x3ff) << 10) + (s[i + 1] & 0x3ff)); i++; } else w += (wchar_t)s[i]; return w; };
	std::wstring w = cp(z), e; std::string in = "source " + hexv(t) + " capacity " + std::to_string(cap); { dst<wchar_t> d(w.size() + 1, e); is("strcpy-utf16", stdex::strcpy((wchar_t*)d, (const char16_t*)bz), d, w, 1, in); } { std::wstring x = w.substr(0, cap); dst<wchar_t> d(cap, e); is("strncpy-utf16", stdex::strncpy((wchar_t*)d, cap, (const char16_t*)b, t.size()), d, x, x.size() < cap, in); } }
int main() { init(); while (more()) { run<char, char>(); run<wchar_t, wchar_t>(); run<char16_t, char16_t>(); run<wchar_t, char>(); run<char, wchar_t>(); run<char16_t, char>(); wh(); dup<char>(); dup<wchar_t>(); dup<char16_t>(); } return finish(); }
