#include "vt.hpp"
#include <stdex/string.hpp>
#define PAIR(S, T, U) extern "C" { \
size_t h_strcpy_##S(T *d, const U *s) { return stdex::strcpy(d, s); } \
size_t h_strncpy1_##S(T *d, const U *s, size_t n) { return stdex::strncpy(d, s, n); } \
size_t h_strncpy_##S(T *d, size_t m, const U *s, size_t n) { return stdex::strncpy(d, m, s, n); } \
size_t h_strncpy_a_##S(T (&d)[16], const U (&s)[9]) { return stdex::strncpy(d, s); } \
size_t h_strncpy_b_##S(T (&d)[9], const U (&s)[16]) { return stdex::strncpy(d, s); } \
size_t h_strcat_##S(T *d, const U *s) { return stdex::strcat(d, s); } \
size_t h_strncat1_##S(T *d, const U *s, size_t n) { return stdex::strncat(d, s, n); } \
size_t h_strncat_##S(T *d, size_t m, const U *s, size_t n) { return stdex::strncat(d, m, s, n); } \
}
#define DUP(S, T) extern "C" { T *h_strdup_##S(const T *s) { return stdex::strdup(s); } T *h_strndup_##S(const T *s, size_t n) { return stdex::strndup(s, n); } T *h_strndup_a_##S(const T (&s)[16]) { return stdex::strndup(s); } }
PAIR(cc, char, char) PAIR(ww, wchar_t, wchar_t) PAIR(hh, char16_t, char16_t) PAIR(wc, wchar_t, char) PAIR(cw, char, wchar_t) PAIR(hc, char16_t, char)
DUP(c, char) DUP(w, wchar_t) DUP(h, char16_t)
extern "C" {
size_t h_strcpy_wh(wchar_t *d, const char16_t *s) { return stdex::strcpy(d, s); }
size_t h_strncpy_wh(wchar_t *d, size_t m, const char16_t *s, size_t n) { return stdex::strncpy(d, m, s, n); }
}
