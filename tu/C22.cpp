#include "absstream.hpp"
typedef stdex::stream::buffer B;
FIELD(b_state, B, m_state)
FIELD(b_source, B, m_source)
FIELD(b_rdata, B, m_read_buffer.data)
FIELD(b_rhead, B, m_read_buffer.head)
FIELD(b_rtail, B, m_read_buffer.tail)
FIELD(b_rcap, B, m_read_buffer.capacity)
FIELD(b_wdata, B, m_write_buffer.data)
FIELD(b_whead, B, m_write_buffer.head)
FIELD(b_wtail, B, m_write_buffer.tail)
FIELD(b_wcap, B, m_write_buffer.capacity)
SIZEOF(b, B)
extern "C" {
void h_b_ctor(B *b, AS &s, size_t r, size_t w) { new (b) B(s, r, w); }
void h_b_dtor(B &b) { b.B::~B(); }
size_t h_b_read(B &b, void *d, size_t n) { return b.B::read(d, n); }
size_t h_b_write(B &b, const void *d, size_t n) { return b.B::write(d, n); }
void h_b_flush(B &b) { b.B::flush(); }
void h_b_close(B &b) { b.B::close(); }
}
