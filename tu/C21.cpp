#include "absstream.hpp"
typedef stdex::stream::window W;
FIELD(w_state, W, m_state)
FIELD(w_rl, W, read_limit)
FIELD(w_wl, W, write_limit)
FIELD(w_ro, W, read_offset)
FIELD(w_wo, W, write_offset)
SIZEOF(w, W)
extern "C" {
void h_w_ctor(W *w, AS &s, uint64_t ro, uint64_t rl, uint64_t wo, uint64_t wl) { new (w) W(s, ro, rl, wo, wl); }
size_t h_w_read(W &w, void *d, size_t n) { return w.W::read(d, n); }
size_t h_w_write(W &w, const void *d, size_t n) { return w.W::write(d, n); }
}
