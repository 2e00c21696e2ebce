#include "vt.hpp"
#include <stdex/endian.hpp>
#define V(n, T) extern "C" T h_v_##n(T x) { return (T)stdex::byteswap(x); } extern "C" void h_p_##n(T *x) { stdex::byteswap(x); }
V(u8, uint8_t) V(u16, uint16_t) V(u32, uint32_t) V(u64, uint64_t) V(ch, char) V(s8, int8_t) V(s16, int16_t) V(s32, int32_t) V(s64, int64_t)
extern "C" void h_p_f32(float *x) { stdex::byteswap(x); }
extern "C" void h_p_f64(double *x) { stdex::byteswap(x); }
extern "C" void h_v_f32(uint32_t *x) { float f; __builtin_memcpy(&f, x, 4); f = stdex::byteswap(f); __builtin_memcpy(x, &f, 4); }
extern "C" void h_v_f64(uint64_t *x) { double f; __builtin_memcpy(&f, x, 8); f = stdex::byteswap(f); __builtin_memcpy(x, &f, 8); }
