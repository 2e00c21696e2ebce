#pragma once
#include "oracle.hpp"
#include <memory>
namespace orc {
	// exactly-sized heap copy: reading one unit too far is caught by AddressSanitizer
	template<class T> struct buf { std::unique_ptr<T[]> p; size_t n; buf(const std::basic_string<T> &s, bool z) : n(s.size() + z) { p.reset(new T[n]); for (size_t i = 0; i < s.size(); i++) p[i] = s[i]; if (z) p[s.size()] = 0; } operator const T*() const { return p.get(); } };
	template<class T> std::basic_string<T> text(size_t mx, bool zeros, const char *al = 0) { static const char d[] = "aAbBzZ@[`{ \x7f" "aAaA"; if (!al) al = d; size_t L = strlen(al); std::basic_string<T> s; size_t n = size(mx); for (size_t i = 0; i < n; i++) s += zeros && chance(1, 25) ? (T)0 : chance(1, 12) ? (T)((rnd() & 1) ? rnd() | 1 : 0x100 + al[rnd(L)] + (rnd(4) << 6)) : (T)al[rnd(L)]; if (!zeros) for (auto &x : s) if (!x) x = (T)'q'; return s; }
	template<class T> std::basic_string<T> cut(const std::basic_string<T> &s) { size_t i = 0; while (i < s.size() && s[i]) i++; return s.substr(0, i); }
	template<class T> T lo(T c) { return c >= 'A' && c <= 'Z' ? (T)(c + 32) : c; }
	template<class T> T up(T c) { return c >= 'a' && c <= 'z' ? (T)(c - 32) : c; }
	template<class T> std::basic_string<T> lo(std::basic_string<T> s) { for (auto &x : s) x = lo(x); return s; }
	static inline int sgn(int x) { return x < 0 ? -1 : x > 0; }
}
