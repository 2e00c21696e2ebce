#include "vt.hpp"
#include <stdex/string.hpp>
#define IN(S, T, W) extern "C" uint##W##_t h_in##W##_##S(const T *s, size_t n, size_t *end, int radix, uint8_t &flags) { return stdex::strtoint<T, uint##W##_t>(s, n, end, radix, flags); }
#define OUT(S, T, W) extern "C" { \
int##W##_t h_to##W##_##S(const T *s, size_t n, size_t *end, int radix) { return stdex::strto##W<T>(s, n, end, radix); } \
int##W##_t h_toa##W##_##S(const T (&s)[16], size_t *end, int radix) { return stdex::strto##W<T>(s, end, radix); } \
uint##W##_t h_tou##W##_##S(const T *s, size_t n, size_t *end, int radix) { return stdex::strtou##W<T>(s, n, end, radix); } \
uint##W##_t h_toua##W##_##S(const T (&s)[16], size_t *end, int radix) { return stdex::strtou##W<T>(s, end, radix); } }
#define SZ(S, T) extern "C" { ptrdiff_t h_toi64_##S(const T *s, size_t n, size_t *end, int radix) { return stdex::strtoi<T>(s, n, end, radix); } ptrdiff_t h_toia64_##S(const T (&s)[16], size_t *end, int radix) { return stdex::strtoi<T>(s, end, radix); } \
size_t h_toui64_##S(const T *s, size_t n, size_t *end, int radix) { return stdex::strtoui<T>(s, n, end, radix); } size_t h_touia64_##S(const T (&s)[16], size_t *end, int radix) { return stdex::strtoui<T>(s, end, radix); } }
#define ALL(S, T) IN(S, T, 8) IN(S, T, 16) IN(S, T, 32) IN(S, T, 64) OUT(S, T, 8) OUT(S, T, 16) OUT(S, T, 32) OUT(S, T, 64) SZ(S, T)
ALL(c, char) ALL(w, wchar_t) ALL(h, char16_t)
