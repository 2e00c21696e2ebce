#define COMMA ,
#include "texts.hpp"
#include <stdex/string.hpp>
#include <locale>
using namespace orc;
static std::locale C = std::locale::classic();
template<class T> void scan() {
	typedef std::basic_string<T> S; CASE(); S s = text<T>(60, true), z = cut(s); buf<T> b(s, false), bz(z, true); T c = chance(3, 4) && s.size() ? s[rnd(s.size())] : (T)"aAzZ@["[rnd(6)]; if (!c) c = 'a';
	size_t n = s.size();
#define EQ(e, w, key) do { size_t g_ = (e), w_ = (w); if (g_ != w_) { fail(key, "text %s chr %llx width %d: got %zd expected %zd", hexv(s).c_str(), (unsigned long long)c, (int)sizeof(T), g_, w_); return; } } while (0)
	EQ(stdex::strlen((const T*)bz), z.size(), "strlen"); EQ(stdex::strnlen((const T*)b, n), z.size(), "strnlen");
	EQ(stdex::strchr((const T*)bz, c), z.find(c), "strchr"); EQ(stdex::strnchr((const T*)b, n, c), z.find(c), "strnchr");
	EQ(stdex::strrchr((const T*)bz, c), z.rfind(c), "strrchr"); EQ(stdex::strrnchr((const T*)b, n, c), z.rfind(c), "strrnchr");
	S l = lo(z); T d = lo(c);
	EQ(stdex::strichr((const T*)bz, c), l.find(d), "strichr"); EQ(stdex::strnichr((const T*)b, n, c), l.find(d), "strnichr");
	EQ(stdex::strrichr((const T*)bz, c), l.rfind(d), "strrichr"); EQ(stdex::strrnichr((const T*)b, n, c), l.rfind(d), "strrnichr");
	T a[8]; S as; for (auto &x : a) { x = chance(1, 8) ? (T)0 : (T)"aAb"[rnd(3)]; as += x; } s = as; z = cut(s); c = 'A'; l = lo(z); d = 'a';
	EQ(stdex::strnlen(a), z.size(), "strnlen-array"); EQ(stdex::strnchr(a, c), z.find(c), "strnchr-array"); EQ(stdex::strrnchr(a, c), z.rfind(c), "strrnchr-array"); EQ(stdex::strnichr(a, c), l.find(d), "strnichr-array"); EQ(stdex::strrnichr(a, c), l.rfind(d), "strrnichr-array");
}
template<class T> void loc() {
	typedef std::basic_string<T> S; CASE(); S s = text<T>(40, true), z = cut(s); buf<T> b(s, false), bz(z, true); T c = s.size() ? s[rnd(s.size())] : (T)'A'; if (!c) c = 'a'; size_t n = s.size(); auto &ct = std::use_facet<std::ctype<T>>(C);
	S l = z; for (auto &x : l) x = ct.tolower(x); T d = ct.tolower(c);
	EQ(stdex::strichr((const T*)bz, c, C), l.find(d), "strichr-l"); EQ(stdex::strnichr((const T*)b, n, c, C), l.find(d), "strnichr-l"); EQ(stdex::strrichr((const T*)bz, c, C), l.rfind(d), "strrichr-l"); EQ(stdex::strrnichr((const T*)b, n, c, C), l.rfind(d), "strrnichr-l");
	S t = chance(1, 2) ? s : text<T>(40, true), zt = cut(t); buf<T> bt(t, false), bzt(zt, true);
	if (sgn(stdex::strcoll((const T*)bz, (const T*)bzt, C)) != sgn(stdex::strncoll((const T*)b, n, (const T*)bt, t.size(), C))) fail("strncoll", "texts %s and %s", hexv(s).c_str(), hexv(t).c_str());
	S m = zt; for (auto &x : m) x = ct.tolower(x);
	if ((stdex::stricmp((const T*)bz, (const T*)bzt, C) == 0) != (l == m) || (stdex::strnicmp((const T*)b, n, (const T*)bt, t.size(), C) == 0) != (l == m)) fail("stricmp-l", "texts %s and %s", hexv(s).c_str(), hexv(t).c_str());
	S sm = z.size() && chance(2, 3) ? z.substr(rnd(z.size()), 1 + rnd(4)) : zt.substr(0, 3); buf<T> bs(sm, true); S lm = sm; for (auto &x : lm) x = ct.tolower(x);
	EQ(stdex::stristr((const T*)bz, (const T*)bs, C), l.find(lm), "stristr-l"); EQ(stdex::strnistr((const T*)b, n, (const T*)bs, C), l.find(lm), "strnistr-l");
}
// order by definition: position by position, the terminator being a code unit of value 0; behind a limit there is nothing
template<class T, class U> int ref(const std::basic_string<T> &a, bool za, const std::basic_string<U> &b, bool zb) {
	for (size_t i = 0;; i++) { bool ea = i >= a.size(), eb = i >= b.size(); long long x = ea ? 0 : (long long)a[i], y = eb ? 0 : (long long)b[i];
		if (ea && !za) return eb ? 0 : 0 != y ? -1 : 0;
		if (eb && !zb) return 0 != x ? 1 : 0;
		if (x != y) return x > y ? 1 : -1; if (!x) return 0; } }
template<class T, class U> void cmp() {
	typedef std::basic_string<T> S; typedef std::basic_string<U> V; CASE(); S s = text<T>(40, true); V t; size_t m = chance(1, 3) ? size(40) : s.size() + rnd(3) - 1; for (size_t i = 0; i < m && i < 1000; i++) t += i < s.size() ? (U)s[i] : (U)"aA\0"[rnd(3)]; if (t.size() && chance(1, 2)) { auto &x = t[rnd(t.size())]; x = chance(1, 2) ? (U)(x ^ 0x20) : (U)rnd(); }
	S zs = cut(s); V zt = cut(t); buf<T> a(s, false), az(zs, true); buf<U> b(t, false), bz(zt, true); size_t n = s.size(), k = t.size(), q = std::min(n, k);
	bool ts = zs.size() < s.size(), tt = zt.size() < t.size();
#define SG(e, w, key) do { int g_ = sgn(e), w_ = (w); if (g_ != w_) { fail(key, "texts %s and %s widths %d %d: sign %d expected %d", hexv(s).c_str(), hexv(t).c_str(), (int)sizeof(T), (int)sizeof(U), g_, w_); return; } } while (0)
	SG(stdex::strcmp((const T*)az, (const U*)bz), ref<T COMMA U>(zs, true, zt, true), "strcmp");
	SG(stdex::stricmp((const T*)az, (const U*)bz), ref<T COMMA U>(lo(zs), true, lo(zt), true), "stricmp");
	SG(stdex::strncmp((const T*)a, n, (const U*)b, k), ref<T COMMA U>(zs, ts, zt, tt), "strncmp");
	SG(stdex::strnicmp((const T*)a, n, (const U*)b, k), ref<T COMMA U>(lo(zs), ts, lo(zt), tt), "strnicmp");
	S rs(zs.rbegin(), zs.rend()); V rt(zt.rbegin(), zt.rend());
	SG(stdex::strrcmp((const T*)az, (const U*)bz), ref<T COMMA U>(rs, false, rt, false), "strrcmp"); SG(stdex::strrncmp((const T*)a, n, (const U*)b, k), ref<T COMMA U>(rs, false, rt, false), "strrncmp");
	{ S s1 = s.substr(0, q), z1 = cut(s1); V t1 = t.substr(0, q), z2 = cut(t1); s = s1; t = t1; buf<T> a1(s1, false); buf<U> b1(t1, false);
		SG(stdex::strncmp((const T*)a1, (const U*)b1, q), ref<T COMMA U>(z1, z1.size() < q, z2, z2.size() < q), "strncmp1"); SG(stdex::strnicmp((const T*)a1, (const U*)b1, q), ref<T COMMA U>(lo(z1), z1.size() < q, lo(z2), z2.size() < q), "strnicmp1");
		S r1(z1.rbegin(), z1.rend()); V r2(z2.rbegin(), z2.rend()); SG(stdex::strrncmp((const T*)a1, (const U*)b1, q), ref<T COMMA U>(r1, false, r2, false), "strrncmp1"); }
	T aa[4]; U bb[3]; s.clear(); t.clear(); for (auto &x : aa) s += x = (T)"aAb\0"[rnd(4)]; for (size_t i = 0; i < 3; i++) t += bb[i] = chance(2, 3) ? (U)aa[i] : (U)"aAB"[rnd(3)];
	zs = cut(s); zt = cut(t); ts = zs.size() < 4; tt = zt.size() < 3;
	SG(stdex::strncmp(aa, bb), ref<T COMMA U>(zs, ts, zt, tt), "strncmp-array"); SG(stdex::strnicmp(aa, bb), ref<T COMMA U>(lo(zs), ts, lo(zt), tt), "strnicmp-array");
}
template<class T, class U> void find() {
	typedef std::basic_string<T> S; typedef std::basic_string<U> V; CASE(); S s = text<T>(50, true, "aAab"), z = cut(s); V x; if (z.size() && chance(2, 3)) { size_t p = rnd(z.size()), k = rnd(6); for (size_t i = p; i < z.size() && k--; i++) x += (U)(unsigned char)z[i]; if (chance(1, 3)) x += (U)'a'; } else x = text<U>(4, false, "aA");
	for (auto &q : x) if (!q) q = 'a'; buf<T> b(s, false), bz(z, true); buf<U> bx(x, true); T c = 0; S xs; for (auto q : x) xs += (T)q; for (auto q : x) if ((long long)(T)q != (long long)q) return; for (auto q : z) if ((long long)q < 0 || (long long)q > 127) return;
	EQ(stdex::strstr((const T*)bz, (const U*)bx), z.find(xs), "strstr"); EQ(stdex::strnstr((const T*)b, s.size(), (const U*)bx), z.find(xs), "strnstr"); EQ(stdex::stristr((const T*)bz, (const U*)bx), lo(z).find(lo(xs)), "stristr"); EQ(stdex::strnistr((const T*)b, s.size(), (const U*)bx), lo(z).find(lo(xs)), "strnistr");
}
static void wh() { CASE(); std::u16string t; std::wstring s; size_t n = size(20); for (size_t i = 0; i < n; i++) { wchar_t c = chance(1, 12) ? 0 : chance(1, 3) ? 0x10000 + rnd(0x100000) : chance(1, 3) ? 0xd7fe + rnd(0x810) : 1 + rnd(0x7f); s += c; if (c >= 0x10000) { t += (char16_t)(0xd800 + ((c - 0x10000) >> 10)); t += (char16_t)(0xdc00 + ((c - 0x10000) & 0x3ff)); } else t += (char16_t)c; } if (s.size() && chance(1, 2)) s[rnd(s.size())] += rnd(3) - 1; if (chance(1, 4) && t.size()) t.resize(t.size() - 1 - rnd(std::min(t.size(), (size_t)2)));
	std::wstring d; for (size_t i = 0; i < t.size() && t[i]; i++) if ((t[i] & 0xfc00) == 0xd800 && i + 1 < t.size() && (t[i + 1] & 0xfc00) == 0xdc00) { d += (wchar_t)(0x10000 + ((t[i] & 0x3ff) << 10) + (t[i + 1] & 0x3ff)); i++; } else d += t[i];
	std::wstring z = cut(s); buf<wchar_t> a(s, false); buf<char16_t> b(t, false); int w = z < d ? -1 : z > d; for (auto c : z) if (c < 0) return; int g = sgn(stdex::strncmp((const wchar_t*)a, s.size(), (const char16_t*)b, t.size()));
	if (g != w) fail("strncmp-wh", "%s against %s: sign %d expected %d", hexv(s).c_str(), hexv(t).c_str(), g, w); }
int main() { init(); while (more()) for (int i = 0; i < 100; i++) { scan<char>(); scan<wchar_t>(); scan<char16_t>(); loc<char>(); loc<wchar_t>(); cmp<char, char>(); cmp<wchar_t, wchar_t>(); cmp<char16_t, char16_t>(); cmp<wchar_t, char>(); cmp<char16_t, char>(); find<char, char>(); find<wchar_t, char>(); find<char16_t, char16_t>(); wh(); } return finish(); }
