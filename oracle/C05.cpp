#include "oracle.hpp"
#include <stdex/endian.hpp>
using namespace orc;
template<class T> void t(const char *n) { CASE(); T x = (T)edge(), y, z; unsigned char a[8], b[8]; memcpy(a, &x, sizeof x); for (size_t i = 0; i < sizeof x; i++) b[i] = a[sizeof x - 1 - i]; memcpy(&y, b, sizeof x);
	z = (T)stdex::byteswap(x); CHECK(z == y, "value", "%s byteswap(0x%llx) -> 0x%llx", n, (unsigned long long)x, (unsigned long long)z);
	z = x; stdex::byteswap(&z); CHECK(z == y, "inplace", "%s byteswap(&0x%llx) -> 0x%llx", n, (unsigned long long)x, (unsigned long long)z); }
int main() { init(); while (more()) for (int i = 0; i < 1000; i++) { t<uint8_t>("u8"); t<uint16_t>("u16"); t<uint32_t>("u32"); t<uint64_t>("u64"); t<char>("char"); t<int8_t>("s8"); t<int16_t>("s16"); t<int32_t>("s32"); t<int64_t>("s64");
	uint64_t q = edge(), e = __builtin_bswap64(q); double d; memcpy(&d, &q, 8); stdex::byteswap(&d); CHECK(!memcmp(&d, &e, 8), "double", "bits 0x%llx", (unsigned long long)q);
	uint32_t q4 = (uint32_t)q, e4 = __builtin_bswap32(q4); float f; memcpy(&f, &q4, 4); stdex::byteswap(&f); CHECK(!memcmp(&f, &e4, 4), "float", "bits 0x%x", q4); }
	return finish(); }
