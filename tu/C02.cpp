#include "vt.hpp"
#include <stdex/hex.hpp>
FIELD(buf, stdex::hex_dec, buf)
FIELD(num, stdex::hex_dec, num)
SIZEOF(dec, stdex::hex_dec)
extern "C" {
void h_enc8(stdex::hex_enc &e, std::string &out, const void *d, size_t n) { e.encode(out, d, n); }
void h_encw(stdex::hex_enc &e, std::wstring &out, const void *d, size_t n) { e.encode(out, d, n); }
void h_dec8(stdex::hex_dec &e, std::vector<uint8_t> &out, bool &last, const char *d, size_t n) { e.decode(out, last, d, n); }
void h_decw(stdex::hex_dec &e, std::vector<uint8_t> &out, bool &last, const wchar_t *d, size_t n) { e.decode(out, last, d, n); }
void h_ctor(stdex::hex_dec *e) { new (e) stdex::hex_dec(); }
void h_clear(stdex::hex_dec *e) { e->clear(); }
}
