#include "vt.hpp"
#include <stdex/hash.hpp>
typedef stdex::md5_hash H;
FIELD(value, H, m_value)
FIELD(counter, H, m_counter)
FIELD(queue, H, m_queue)
FIELD(state, H, m_state)
SIZEOF(h, H)
extern "C" void h_ctor(H *p) { new (p) H(); }
extern "C" void h_clear(H &h) { h.H::clear(); }
extern "C" void h_hash(H &h, const void *d, size_t n) { h.stdex::block_hash<stdex::md5_t>::hash(d, n); }
extern "C" void h_block(H &h) { h.H::hash_block(); }
extern "C" void h_fin(H &h) { h.H::finalize(); }
