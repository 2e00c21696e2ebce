#include "absstream.hpp"
typedef stdex::stream::memory_file M;
using stdex::stream::seek_t;

FIELD(m_data, M, m_data)
FIELD(m_manage, M, m_manage)
FIELD(m_offset, M, m_offset)
FIELD(m_size, M, m_size)
FIELD(m_reserved, M, m_reserved)
SIZEOF(m, M)
extern "C" {
void *h_m_state(M *m) { return &m->m_state; }
void h_m_ctor0(M *m) { new (m) M(); }
void h_m_ctor(M *m, size_t n) { new (m) M(n); }
void h_m_ctord(M *m, void *d, size_t n, size_t r, bool manage) { new (m) M(d, n, r, manage); }
void h_m_copy(M *m, const M &o) { new (m) M(o); }
void h_m_move(M *m, M &o) { new (m) M(std::move(o)); }
void h_m_assign(M &m, const M &o) { m = o; }
void h_m_massign(M &m, M &o) { m = std::move(o); }
void h_m_dtor(M &m) { m.M::~M(); }
void h_m_reserve(M &m, size_t n, bool tight) { m.reserve(n, tight); }
const void *h_m_data(M &m) { return m.data(); }
size_t h_m_read(M &m, void *d, size_t n) { return m.M::read(d, n); }
size_t h_m_write(M &m, const void *d, size_t n) { return m.M::write(d, n); }
void h_m_write_byte(M &m, uint8_t b, size_t n) { m.write_byte(b, n); }
size_t h_m_write_stream(M &m, AS &s, size_t n) { return m.write_stream(s, n); }
void h_m_close(M &m) { m.M::close(); }
uint64_t h_m_seek(M &m, int64_t o, seek_t how) { return m.M::seek(o, how); }
uint64_t h_m_tell(M &m) { return m.M::tell(); }
uint64_t h_m_size(M &m) { return m.M::size(); }
void h_m_truncate(M &m) { m.M::truncate(); }
void h_m_skip(M &m, uint64_t n) { m.stdex::stream::basic_file::skip(n); }
void h_m_rem(std::vector<uint8_t> *r, M &m, size_t max) { new (r) std::vector<uint8_t>(m.stdex::stream::basic_file::read_remainder(max)); }
#define INT(w) M *h_m_r##w(M &m, uint##w##_t &x) { return &(m >> x); } M *h_m_w##w(M &m, uint##w##_t x) { return &(m << x); }
INT(8) INT(16) INT(32) INT(64)
#define STR(n, T) M *h_m_rs_##n(M &m, std::basic_string<T> &s) { return &(m >> s); } M *h_m_ws_##n(M &m, const std::basic_string<T> &s) { return &(m << s); } M *h_m_wz_##n(M &m, const T *s) { return &(m << s); }
STR(c, char) STR(w, wchar_t)
}
