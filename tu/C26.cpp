#include "absstream.hpp"
typedef stdex::stream::basic B;
extern "C" {
size_t h_read_array(AS &s, void *d, size_t size, size_t count) { return s.read_array(d, size, count); }
size_t h_write_array(AS &s, const void *d, size_t size, size_t count) { return s.write_array(d, size, count); }
void h_skip(AS &s, uint64_t n) { s.B::skip(n); }
uint8_t h_read_byte(AS &s) { return s.read_byte(); }
void h_write_byte(AS &s, uint8_t b, uint64_t n) { s.write_byte(b, n); }
void h_read_remainder(std::vector<uint8_t> *r, AS &s, size_t max) { new (r) std::vector<uint8_t>(s.B::read_remainder(max)); }
uint64_t h_write_stream(AS &d, AS &s, uint64_t n) { return d.write_stream(s, n); }
B *h_read_u8(AS &s, uint8_t &x) { return &(s >> x); }
B *h_read_u16(AS &s, uint16_t &x) { return &(s >> x); }
B *h_read_u32(AS &s, uint32_t &x) { return &(s >> x); }
B *h_read_u64(AS &s, uint64_t &x) { return &(s >> x); }
B *h_write_u8(AS &s, uint8_t x) { return &(s << x); }
B *h_write_u16(AS &s, uint16_t x) { return &(s << x); }
B *h_write_u32(AS &s, uint32_t x) { return &(s << x); }
B *h_write_u64(AS &s, uint64_t x) { return &(s << x); }
B *h_read_vec(AS &s, std::vector<uint32_t> &v) { return &(s >> v); }
B *h_write_vec(AS &s, const std::vector<uint32_t> &v) { return &(s << v); }
}
