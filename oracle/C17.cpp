#include "texts.hpp"
#include <stdex/string.hpp>
using namespace orc; using namespace stdex;
static bool cb(uint32_t c) { return (c >= 0x300 && c < 0x370) || (c >= 0x1dc0 && c < 0x1e00) || (c >= 0x20d0 && c < 0x2100) || (c >= 0xfe20 && c < 0xfe30); }
static uint32_t pick() { static const uint32_t e[] = { 0x2ff, 0x300, 0x36f, 0x370, 0x1dbf, 0x1dc0, 0x1dff, 0x1e00, 0x20cf, 0x20d0, 0x20ff, 0x2100, 0xfe1f, 0xfe20, 0xfe2f, 0xfe30, 0x41, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000 }; return chance(1, 8) ? 1 + (uint32_t)rnd(0xfffe) : chance(1, 3) ? 0x301 + (uint32_t)rnd(3) : e[rnd(sizeof e / 4)]; }
template<class T> void glyph() {
	CASE(); std::basic_string<T> s; for (size_t n = 1 + rnd(8); n--;) s += (T)pick(); buf<T> b(s, false); size_t n = s.size();
	auto hi = [&](size_t i) { return sizeof(T) == 2 && (s[i] & 0xfc00) == 0xd800; }; auto lo = [&](size_t i) { return sizeof(T) == 2 && (s[i] & 0xfc00) == 0xdc00; };
	size_t w = n > 1 && hi(0) && lo(1) ? 2 : 1; while (w < n && cb(s[w])) w++; if (glyphlen((const T*)b, n) != w || glyphlen((const T*)b, 0)) fail("glyphlen", "text %s got %zu expected %zu", hexv(s).c_str(), glyphlen((const T*)b, n), w);
	size_t i = n; while (i && cb(s[i - 1])) i--; w = !i ? n : n - (i - 1) + (i > 1 && lo(i - 1) && hi(i - 2)); if (glyphrlen((const T*)b, n) != w) fail("glyphrlen", "text %s got %zu expected %zu", hexv(s).c_str(), glyphrlen((const T*)b, n), w); }
int main() { init(); for (uint32_t u = 0; u < 0x110000; u++) { CASE(); if (u < 0x10000 && (is_high_surrogate(u) != (u >= 0xd800 && u < 0xdc00) || is_low_surrogate(u) != (u >= 0xdc00 && u < 0xe000))) fail("surrogate", "unit %x", u); if (iscombining(u) != cb(u)) fail("combining", "code point %x", u);
		if (u >= 0x10000) { char16_t p[2]; ucs4_to_surrogate_pair(p, u); if (p[0] != 0xd800 + ((u - 0x10000) >> 10) || p[1] != 0xdc00 + ((u - 0x10000) & 0x3ff) || (uint32_t)surrogate_pair_to_ucs4(p) != u || !is_surrogate_pair(p)) fail("split", "code point %x", u); } }
	while (more()) { glyph<char16_t>(); glyph<wchar_t>(); } return finish(); }
