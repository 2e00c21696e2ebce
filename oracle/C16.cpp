#include "texts.hpp"
#include <stdex/string.hpp>
#include <locale>
using namespace orc;
static std::locale C = std::locale::classic();
template<class T> bool in(T c, const char *s) { for (; *s; s++) if (c == (T)*s) return true; return false; }
template<class T> bool rg(T c, char a, char b) { return c >= (T)a && c <= (T)b; }
template<class T> void classes() {
	CASE(); T c = chance(1, 2) ? (T)rnd(0x180) : (T)rnd(); typedef typename std::make_unsigned<T>::type U;
#define B(e, w, key) do { bool g_ = (e), w_ = (w); if (g_ != w_) fail(key, "unit %llx width %d: got %d", (unsigned long long)c, (int)sizeof(T), g_); } while (0)
	bool sp = in(c, " \t\n\r\v\f"), pu = rg(c, '!', '/') || rg(c, ':', '@') || rg(c, '[', '`') || rg(c, '{', '~'), l = rg(c, 'a', 'z'), u = rg(c, 'A', 'Z');
	B(stdex::isspace(c), sp, "isspace"); B(stdex::ispunct(c), pu, "ispunct"); B(stdex::islower(c), l, "islower"); B(stdex::isupper(c), u, "isupper"); B(stdex::isdigit(c), rg(c, '0', '9'), "isdigit"); B(stdex::isalpha(c), l || u, "isalpha"); B(stdex::is7bit(c), (U)c < 0x80, "is7bit"); B(stdex::islbreak(c), in(c, "\r\n"), "islbreak");
	B(stdex::tolower(c) == lo(c), true, "tolower"); B(stdex::toupper(c) == up(c), true, "toupper");
	T q[2] = { (T)"\r\n a"[rnd(4)], (T)"\r\n a"[rnd(4)] }; size_t n = rnd(3), w = n && in(q[0], "\r\n") ? (n > 1 && in(q[1], "\r\n") && q[0] != q[1] ? 2 : 1) : 0; buf<T> b(std::basic_string<T>(q, n), false);
	if (stdex::islbreak((const T*)b, n) != w) fail("islbreak", "text %s count %zu: got %zu", hex(q, sizeof q).c_str(), n, stdex::islbreak((const T*)b, n));
}
template<class T> void put(T *p, const std::basic_string<T> &s) { for (size_t i = 0; i < s.size(); i++) p[i] = s[i]; }
template<class T, class F> void fold(const char *key, const std::basic_string<T> &s, F f) { std::unique_ptr<T[]> p(new T[s.size()]); put(p.get(), s); f(p.get()); std::basic_string<T> z = cut(s), r(p.get(), s.size()), w = s; bool low = !strncmp(key, "strlwr", 6); for (size_t i = 0; i < z.size(); i++) w[i] = low ? lo(s[i]) : up(s[i]); if (r != w) fail(key, "text %s: got %s", hexv(s).c_str(), hexv(r).c_str()); }
template<class T> void folds() {
	CASE(); typedef std::basic_string<T> S; S s = text<T>(50, true); size_t n = s.size();
	fold<T>("strlwr", s, [&](T *p) { stdex::strlwr(p, n); }); fold<T>("strupr", s, [&](T *p) { stdex::strupr(p, n); });
	S a = s, w = s; for (auto &x : w) x = lo(x); stdex::strlwr(a); if (a != w) fail("strlwr-string", "text %s", hexv(s).c_str()); a = w = s; for (auto &x : w) x = up(x); stdex::strupr(a); if (a != w) fail("strupr-string", "text %s", hexv(s).c_str());
	S t; T arr[16]; for (auto &x : arr) t += x = (T)"aAbB{@[` 7z\x7fzZq\0"[rnd(16)];
	fold<T>("strlwr-array", t, [&](T *p) { stdex::strlwr(*(T(*)[16])p); }); fold<T>("strupr-array", t, [&](T *p) { stdex::strupr(*(T(*)[16])p); });
	S b = text<T>(20, true, chance(1, 2) ? " \t\r\n\v\f" : " \t\n a"); S z = cut(b); bool all = true, sev = true; for (auto x : z) { all &= in(x, " \t\r\n\v\f"); sev &= (typename std::make_unsigned<T>::type)x < 0x80; } buf<T> e(b, false);
	T c = 0; B(stdex::isblank((const T*)e, b.size()), all, "isblank"); B(stdex::is7bit((const T*)e, b.size()), sev, "is7bit-text");
	for (auto &x : arr) x = (T)" \t\0"[rnd(40) ? rnd(2) : 2]; if (chance(1, 3)) arr[rnd(16)] = chance(1, 2) ? (T)'x' : (T)0x80; all = sev = true; for (auto x : arr) { if (!x) break; all &= in(x, " \t\r\n\v\f"); sev &= (typename std::make_unsigned<T>::type)x < 0x80; }
	B(stdex::isblank(arr), all, "isblank-array"); B(stdex::is7bit(arr), sev, "is7bit-array");
}
template<class T> void loc() {
	CASE(); typedef std::basic_string<T> S; S s = text<T>(40, true), z = cut(s), w = s, v = s; auto &ct = std::use_facet<std::ctype<T>>(C); for (size_t i = 0; i < z.size(); i++) w[i] = ct.tolower(s[i]), v[i] = ct.toupper(s[i]);
	std::unique_ptr<T[]> p(new T[s.size()]); put(p.get(), s); stdex::strlwr(p.get(), s.size(), C); if (S(p.get(), s.size()) != w) fail("strlwr-locale", "text %s", hexv(s).c_str()); put(p.get(), s); stdex::strupr(p.get(), s.size(), C); if (S(p.get(), s.size()) != v) fail("strupr-locale", "text %s", hexv(s).c_str());
	w = v = s; for (auto &x : w) x = ct.tolower(x); for (auto &x : v) x = ct.toupper(x); S a = s; stdex::strlwr(a, C); if (a != w) fail("strlwr-string-locale", "text %s", hexv(s).c_str()); a = s; stdex::strupr(a, C); if (a != v) fail("strupr-string-locale", "text %s", hexv(s).c_str());
	T arr[16]; S t; for (auto &x : arr) t += x = (T)"aAbB{@[` 7z\x7fzZq\0"[rnd(16)]; z = cut(t); w = v = t; for (size_t i = 0; i < z.size(); i++) w[i] = ct.tolower(t[i]), v[i] = ct.toupper(t[i]); stdex::strlwr(arr, C); if (S(arr, 16) != w) fail("strlwr-array-locale", "text %s", hexv(t).c_str()); put(arr, t); stdex::strupr(arr, C); if (S(arr, 16) != v) fail("strupr-array-locale", "text %s", hexv(t).c_str());
	S b = text<T>(16, true, " \t\n \v"); bool all = true; for (auto x : cut(b)) all &= ct.is(ct.space, x); buf<T> e(b, false); T c = 0; B(stdex::isblank((const T*)e, b.size(), C), all, "isblank-locale");
}
template<class T> void crlf() {
	CASE(); typedef std::basic_string<T> S; S s = text<T>(40, true, "\r\n\r\nab"), z = cut(s), w; auto conv = [](const S &s) { S w; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\r' && i + 1 < s.size() && s[i + 1] == '\n') i++; w += s[i]; } return w; }; w = conv(z);
	buf<T> b(z, true); std::unique_ptr<T[]> d(new T[w.size() + 1]); if (stdex::crlf2nl(d.get(), (const T*)b) != w.size() || S(d.get(), w.size()) != w || d[w.size()]) fail("crlf2nl", "text %s", hexv(z).c_str());
	std::unique_ptr<T[]> p(new T[z.size() + 1]); put(p.get(), z); p[z.size()] = 0; if (stdex::crlf2nl(p.get(), p.get()) != w.size() || S(p.get(), w.size()) != w || p[w.size()]) fail("crlf2nl-in-place", "text %s", hexv(z).c_str());
	S r = text<T>(5, false); stdex::crlf2nl(r, (const T*)b); if (r != w) fail("crlf2nl-string", "text %s got %s", hexv(z).c_str(), hexv(r).c_str());
	r = s; stdex::crlf2nl(r); if (r != conv(s)) fail("crlf2nl-string-in-place", "text %s got %s", hexv(s).c_str(), hexv(r).c_str());
}
template<class T> void all() { classes<T>(); folds<T>(); crlf<T>(); }
int main() { init(); while (more()) { all<char>(); all<wchar_t>(); all<char16_t>(); loc<char>(); loc<wchar_t>(); } return finish(); }
