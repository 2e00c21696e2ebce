#include "absstream.hpp"
#include <stdex/hash.hpp>
typedef stdex::crc32_hash H; typedef stdex::stream_hasher<stdex::crc32_t> SH;
FIELD(h_value, H, m_value)
SIZEOF(h, H)
SIZEOF(sh, SH)
FIELD(sh_state, SH, m_state)
extern "C" void h_ctor(H *p, uint32_t crc) { new (p) H(crc); }
extern "C" void h_ctor0(H *p) { new (p) H(); }
extern "C" void h_clear(H &h) { h.H::clear(); }
extern "C" void h_hash(H &h, const void *d, size_t n) { h.H::hash(d, n); }
extern "C" void h_fin(H &h) { h.H::finalize(); }
extern "C" void h_sh(SH *p, H &h, stdex::stream::basic &s) { new (p) SH(h, s); }
extern "C" size_t h_shread(SH &s, void *d, size_t n) { return s.SH::read(d, n); }
extern "C" size_t h_shwrite(SH &s, const void *d, size_t n) { return s.SH::write(d, n); }
