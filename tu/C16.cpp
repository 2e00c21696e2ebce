#include "vt.hpp"
#include <stdex/string.hpp>
#include <locale>
typedef const std::locale L;
#define ONE(S, T) extern "C" { \
bool h_isspace_##S(T c) { return stdex::isspace(c); } bool h_ispunct_##S(T c) { return stdex::ispunct(c); } bool h_islower_##S(T c) { return stdex::islower(c); } bool h_isupper_##S(T c) { return stdex::isupper(c); } \
bool h_isdigit_##S(T c) { return stdex::isdigit(c); } bool h_isalpha_##S(T c) { return stdex::isalpha(c); } bool h_is7bit_##S(T c) { return stdex::is7bit(c); } bool h_islbreak_##S(T c) { return stdex::islbreak(c); } \
T h_tolower_##S(T c) { return stdex::tolower(c); } T h_toupper_##S(T c) { return stdex::toupper(c); } \
size_t h_lbreak_##S(const T *s, size_t n) { return stdex::islbreak(s, n); } \
bool h_isblank_##S(const T *s, size_t n) { return stdex::isblank(s, n); } bool h_isblank_a_##S(const T (&s)[16]) { return stdex::isblank(s); } \
bool h_is7bits_##S(const T *s, size_t n) { return stdex::is7bit(s, n); } bool h_is7bits_a_##S(const T (&s)[16]) { return stdex::is7bit(s); } \
void h_strlwr_##S(T *s, size_t n) { stdex::strlwr(s, n); } void h_strlwr_a_##S(T (&s)[16]) { stdex::strlwr(s); } void h_strlwr_s_##S(std::basic_string<T> &s) { stdex::strlwr(s); } \
void h_strupr_##S(T *s, size_t n) { stdex::strupr(s, n); } void h_strupr_a_##S(T (&s)[16]) { stdex::strupr(s); } void h_strupr_s_##S(std::basic_string<T> &s) { stdex::strupr(s); } \
size_t h_crlf_##S(T *d, const T *s) { return stdex::crlf2nl(d, s); } void h_crlf_d_##S(std::basic_string<T> &d, const T *s) { stdex::crlf2nl(d, s); } void h_crlf_s_##S(std::basic_string<T> &s) { stdex::crlf2nl(s); } \
}
#define LOC(S, T) extern "C" { \
bool h_isblank_l_##S(const T *s, size_t n, L &l) { return stdex::isblank(s, n, l); } \
void h_strlwr_l_##S(T *s, size_t n, L &l) { stdex::strlwr(s, n, l); } void h_strlwr_al_##S(T (&s)[16], L &l) { stdex::strlwr(s, l); } void h_strlwr_sl_##S(std::basic_string<T> &s, L &l) { stdex::strlwr(s, l); } \
void h_strupr_l_##S(T *s, size_t n, L &l) { stdex::strupr(s, n, l); } void h_strupr_al_##S(T (&s)[16], L &l) { stdex::strupr(s, l); } void h_strupr_sl_##S(std::basic_string<T> &s, L &l) { stdex::strupr(s, l); } \
}
ONE(c, char) ONE(w, wchar_t) ONE(h, char16_t)
LOC(c, char) LOC(w, wchar_t)
