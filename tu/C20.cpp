#include "absstream.hpp"
typedef stdex::stream::limiter L;
FIELD(l_state, L, m_state)
FIELD(l_rl, L, read_limit)
FIELD(l_wl, L, write_limit)
SIZEOF(l, L)
extern "C" {
void h_l_ctor(L *l, AS &s, uint64_t r, uint64_t w) { new (l) L(s, r, w); }
size_t h_l_read(L &l, void *d, size_t n) { return l.L::read(d, n); }
size_t h_l_write(L &l, const void *d, size_t n) { return l.L::write(d, n); }
void h_l_close(L &l) { l.L::close(); }
void h_l_flush(L &l) { l.L::flush(); }
}
