#include "vt.hpp"
#include <stdex/math.hpp>
extern "C" {
size_t h_mul(size_t a, size_t b) { return stdex::mul(a, b); }
size_t h_add(size_t a, size_t b) { return stdex::add(a, b); }
uint32_t h_rol(uint32_t v, int n) { return stdex::rol(v, n); }
int32_t h_mds32(int32_t n, int32_t k, int32_t q) { return stdex::muldiv(n, k, q); }
uint32_t h_mdu32(uint32_t n, uint32_t k, uint32_t q) { return stdex::muldiv(n, k, q); }
int64_t h_mds64(int64_t n, int64_t k, int64_t q) { return stdex::muldiv(n, k, q); }
uint64_t h_mdu64(uint64_t n, uint64_t k, uint64_t q) { return stdex::muldiv(n, k, q); }
}
