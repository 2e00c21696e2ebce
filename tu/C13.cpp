#include "vt.hpp"
#include <stdex/string.hpp>
#include <locale>
typedef char16_t h_t; typedef wchar_t w_t; typedef char c_t; typedef const std::locale L;
#define ONE(S, T) extern "C" { \
T h_tolower_##S(T c) { return stdex::tolower(c); } \
size_t h_strlen_##S(const T *s) { return stdex::strlen(s); } \
size_t h_strnlen_##S(const T *s, size_t n) { return stdex::strnlen(s, n); } \
size_t h_strnlen_a_##S(const T (&s)[16]) { return stdex::strnlen(s); } \
size_t h_strchr_##S(const T *s, T c) { return stdex::strchr(s, c); } \
size_t h_strnchr_##S(const T *s, size_t n, T c) { return stdex::strnchr(s, n, c); } \
size_t h_strnchr_a_##S(const T (&s)[16], T c) { return stdex::strnchr(s, c); } \
size_t h_strrchr_##S(const T *s, T c) { return stdex::strrchr(s, c); } \
size_t h_strrnchr_##S(const T *s, size_t n, T c) { return stdex::strrnchr(s, n, c); } \
size_t h_strrnchr_a_##S(const T (&s)[16], T c) { return stdex::strrnchr(s, c); } \
size_t h_strichr_##S(const T *s, T c) { return stdex::strichr(s, c); } \
size_t h_strnichr_##S(const T *s, size_t n, T c) { return stdex::strnichr(s, n, c); } \
size_t h_strnichr_a_##S(const T (&s)[16], T c) { return stdex::strnichr(s, c); } \
size_t h_strrichr_##S(const T *s, T c) { return stdex::strrichr(s, c); } \
size_t h_strrnichr_##S(const T *s, size_t n, T c) { return stdex::strrnichr(s, n, c); } \
size_t h_strrnichr_a_##S(const T (&s)[16], T c) { return stdex::strrnichr(s, c); } \
}
#define LOC(S, T) extern "C" { \
size_t h_strichr_l_##S(const T *s, T c, L &l) { return stdex::strichr(s, c, l); } \
size_t h_strnichr_l_##S(const T *s, size_t n, T c, L &l) { return stdex::strnichr(s, n, c, l); } \
size_t h_strnichr_al_##S(const T (&s)[16], T c, L &l) { return stdex::strnichr(s, c, l); } \
size_t h_strrichr_l_##S(const T *s, T c, L &l) { return stdex::strrichr(s, c, l); } \
size_t h_strrnichr_l_##S(const T *s, size_t n, T c, L &l) { return stdex::strrnichr(s, n, c, l); } \
size_t h_strrnichr_al_##S(const T (&s)[16], T c, L &l) { return stdex::strrnichr(s, c, l); } \
int h_strcoll_##S(const T *a, const T *b, L &l) { return stdex::strcoll(a, b, l); } \
int h_strncoll_##S(const T *a, size_t n, const T *b, size_t m, L &l) { return stdex::strncoll(a, n, b, m, l); } \
int h_strncoll_a_##S(const T (&a)[16], const T (&b)[9], L &l) { return stdex::strncoll(a, b, l); } \
}
#define CMP(S, T, U) extern "C" { \
int h_strcmp_##S(const T *a, const U *b) { return stdex::strcmp(a, b); } \
int h_strncmp1_##S(const T *a, const U *b, size_t n) { return stdex::strncmp(a, b, n); } \
int h_strncmp_##S(const T *a, size_t n, const U *b, size_t m) { return stdex::strncmp(a, n, b, m); } \
int h_strncmp_a_##S(const T (&a)[16], const U (&b)[9]) { return stdex::strncmp(a, b); } \
int h_strrcmp_##S(const T *a, const U *b) { return stdex::strrcmp(a, b); } \
int h_strrncmp1_##S(const T *a, const U *b, size_t n) { return stdex::strrncmp(a, b, n); } \
int h_strrncmp_##S(const T *a, size_t n, const U *b, size_t m) { return stdex::strrncmp(a, n, b, m); } \
int h_strrncmp_a_##S(const T (&a)[16], const U (&b)[9]) { return stdex::strrncmp(a, b); } \
int h_stricmp_##S(const T *a, const U *b) { return stdex::stricmp(a, b); } \
int h_strnicmp1_##S(const T *a, const U *b, size_t n) { return stdex::strnicmp(a, b, n); } \
int h_strnicmp_##S(const T *a, size_t n, const U *b, size_t m) { return stdex::strnicmp(a, n, b, m); } \
int h_strnicmp_a_##S(const T (&a)[16], const U (&b)[9]) { return stdex::strnicmp(a, b); } \
size_t h_strstr_##S(const T *a, const U *b) { return stdex::strstr(a, b); } \
size_t h_strnstr_##S(const T *a, size_t n, const U *b) { return stdex::strnstr(a, n, b); } \
size_t h_strnstr_a_##S(const T (&a)[16], const U *b) { return stdex::strnstr(a, b); } \
size_t h_stristr_##S(const T *a, const U *b) { return stdex::stristr(a, b); } \
size_t h_strnistr_##S(const T *a, size_t n, const U *b) { return stdex::strnistr(a, n, b); } \
size_t h_strnistr_a_##S(const T (&a)[16], const U *b) { return stdex::strnistr(a, b); } \
}
#define CMPL(S, T, U) extern "C" { \
int h_stricmp_l_##S(const T *a, const U *b, L &l) { return stdex::stricmp(a, b, l); } \
int h_strnicmp1_l_##S(const T *a, const U *b, size_t n, L &l) { return stdex::strnicmp(a, b, n, l); } \
int h_strnicmp_l_##S(const T *a, size_t n, const U *b, size_t m, L &l) { return stdex::strnicmp(a, n, b, m, l); } \
int h_strnicmp_al_##S(const T (&a)[16], const U (&b)[9], L &l) { return stdex::strnicmp(a, b, l); } \
size_t h_stristr_l_##S(const T *a, const U *b, L &l) { return stdex::stristr(a, b, l); } \
size_t h_strnistr_l_##S(const T *a, size_t n, const U *b, L &l) { return stdex::strnistr(a, n, b, l); } \
size_t h_strnistr_al_##S(const T (&a)[16], const U *b, L &l) { return stdex::strnistr(a, b, l); } \
}
ONE(c, char) ONE(w, wchar_t) ONE(h, char16_t)
LOC(c, char) LOC(w, wchar_t)
CMP(cc, char, char) CMP(ww, wchar_t, wchar_t) CMP(hh, char16_t, char16_t) CMP(wc, wchar_t, char) CMP(hc, char16_t, char)
CMPL(cc, char, char) CMPL(ww, wchar_t, wchar_t)
extern "C" {
int h_strncmp_wh(const wchar_t *a, size_t n, const char16_t *b, size_t m) { return stdex::strncmp(a, n, b, m); }
int h_strncmp_a_wh(const wchar_t (&a)[16], const char16_t (&b)[9]) { return stdex::strncmp(a, b); }
}
