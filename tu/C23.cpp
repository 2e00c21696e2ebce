#include "absstream.hpp"
typedef stdex::stream::cache C;
FIELD(c_source, C, m_source)
FIELD(c_data, C, m_cache.data)
FIELD(c_cap, C, m_cache.capacity)
FIELD(c_status, C, m_cache.status)
FIELD(c_start, C, m_cache.region.start)
FIELD(c_end, C, m_cache.region.end)
FIELD(c_offset, C, m_offset)
SIZEOF(c, C)
extern "C" { extern const size_t k_beg, k_cur, k_end; const size_t k_beg = (size_t)stdex::stream::seek_t::beg, k_cur = (size_t)stdex::stream::seek_t::cur, k_end = (size_t)stdex::stream::seek_t::end; }
extern "C" {
void *h_c_state(C &c) { return &c.m_state; }
void h_c_ctor(C *c, AF &s, size_t cap) { new (c) C(s, cap); }
void h_c_ctor2(C *c, AF &s, size_t cap) { new (c) C(cap); c->init(s); }
void h_c_dtor(C &c) { c.C::~C(); }
void h_c_done(C &c) { c.done(); }
size_t h_c_read(C &c, void *d, size_t n) { return c.C::read(d, n); }
size_t h_c_write(C &c, const void *d, size_t n) { return c.C::write(d, n); }
void h_c_flush(C &c) { c.C::flush(); }
void h_c_close(C &c) { c.C::close(); }
stdex::stream::fpos_t h_c_seek(C &c, stdex::stream::foff_t o, stdex::stream::seek_t h) { return c.C::seek(o, h); }
stdex::stream::fpos_t h_c_tell(C &c) { return c.C::tell(); }
stdex::stream::fsize_t h_c_size(C &c) { return c.C::size(); }
void h_c_bflush(C &c) { c.flush_cache(); }
void h_c_binvalidate(C &c) { c.invalidate_cache(); }
void h_c_bload(C &c, stdex::stream::fpos_t a) { c.load_cache(a); }
void h_c_truncate(C &c) { c.C::truncate(); }
}
