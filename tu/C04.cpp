#include "absstream.hpp"
#include <stdex/base64.hpp>
typedef stdex::base64_reader R; typedef stdex::base64_writer W;
FIELD(r_buf, R, m_buf)
FIELD(r_num, R, m_num)
FIELD(r_temp, R, m_temp)
FIELD(r_off, R, m_temp_off)
FIELD(r_len, R, m_temp_len)
FIELD(r_state, R, m_state)
SIZEOF(r, R)
FIELD(w_buf, W, m_buf)
FIELD(w_num, W, m_num)
FIELD(w_max, W, m_max_blocks)
FIELD(w_blocks, W, m_num_blocks)
FIELD(w_state, W, m_state)
SIZEOF(w, W)
extern "C" {
void h_r_ctor(R *r, AS &s) { new (r) R(s); }
size_t h_r_read(R &r, void *d, size_t n) { return r.R::read(d, n); }
void h_r_decode(R &r) { r.decode(); }
void h_w_ctor(W *w, AS &s, size_t m) { new (w) W(s, m); }
size_t h_w_write(W &w, const void *d, size_t n) { return w.W::write(d, n); }
void h_w_dtor(W &w) { w.W::~W(); }
}
