#include "vt.hpp"
#include <stdex/base64.hpp>
FIELD(ebuf, stdex::base64_enc, m_buf)
FIELD(enum, stdex::base64_enc, m_num)
SIZEOF(enc, stdex::base64_enc)
FIELD(dbuf, stdex::base64_dec, m_buf)
FIELD(dnum, stdex::base64_dec, m_num)
SIZEOF(dec, stdex::base64_dec)
extern "C" {
void h_enc8(stdex::base64_enc &e, std::string &out, const void *d, size_t n, bool last) { e.encode(out, d, n, last); }
void h_encw(stdex::base64_enc &e, std::wstring &out, const void *d, size_t n, bool last) { e.encode(out, d, n, last); }
void h_dec8(stdex::base64_dec &e, std::vector<uint8_t> &out, bool &last, const char *d, size_t n) { e.decode(out, last, d, n); }
void h_decw(stdex::base64_dec &e, std::vector<uint8_t> &out, bool &last, const wchar_t *d, size_t n) { e.decode(out, last, d, n); }
void h_ector(stdex::base64_enc *e) { new (e) stdex::base64_enc(); }
void h_eclear(stdex::base64_enc *e) { e->clear(); }
void h_dctor(stdex::base64_dec *e) { new (e) stdex::base64_dec(); }
void h_dclear(stdex::base64_dec *e) { e->clear(); }
size_t h_encsize(const stdex::base64_enc &e, size_t n) { return e.enc_size(n); }
size_t h_decsize(const stdex::base64_dec &e, size_t n) { return e.dec_size(n); }
}
