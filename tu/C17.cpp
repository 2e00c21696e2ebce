#include "vt.hpp"
#include <stdex/string.hpp>
using namespace stdex;
extern "C" {
bool h_high(char16_t c) { return is_high_surrogate(c); } bool h_low(char16_t c) { return is_low_surrogate(c); } bool h_pair(const char16_t *s) { return is_surrogate_pair(s); }
wchar_t h_join(const char16_t *s) { return surrogate_pair_to_ucs4(s); } void h_split(char16_t *s, wchar_t c) { ucs4_to_surrogate_pair(s, c); } bool h_comb(wchar_t c) { return iscombining(c); }
size_t h_len_h(const char16_t *s, size_t n) { return glyphlen(s, n); } size_t h_len_w(const wchar_t *s, size_t n) { return glyphlen(s, n); }
size_t h_rlen_h(const char16_t *s, size_t n) { return glyphrlen(s, n); } size_t h_rlen_w(const wchar_t *s, size_t n) { return glyphrlen(s, n); }
}
