#include "oracle.hpp"
#include <stdex/math.hpp>
using namespace orc;
typedef unsigned __int128 u128; typedef __int128 s128;
static uint32_t inv(uint32_t a, uint32_t m) { int64_t t = 0, nt = 1, r = m, nr = a % m; while (nr) { int64_t q = r / nr; int64_t x = t - q*nt; t = nt; nt = x; x = r - q*nr; r = nr; nr = x; } if (r != 1) return 0; return (uint32_t)(t < 0 ? t + m : t); }
int main() { init();
	while (more()) for (int it = 0; it < 2000; it++) { CASE();
		uint64_t a = edge(), b = edge();
		if (chance(1, 3) && a) { b = (uint64_t)((((u128)1 << 64) / a) + rnd(3) - 1); }
		for (int op = 0; op < 2; op++) {
			u128 w = op ? (u128)a + b : (u128)a * b; bool thrown = false, other = false; uint64_t r = 0;
			try { r = op ? stdex::add(a, b) : stdex::mul(a, b); } catch (const std::invalid_argument &) { thrown = true; } catch (...) { other = true; }
			CHECK(!other && thrown == (w >> 64 != 0) && (thrown || r == (uint64_t)w), op ? "add" : "mul", "%s(%llu,%llu) -> %s%llu", op ? "add" : "mul", (unsigned long long)a, (unsigned long long)b, thrown ? "throws " : other ? "throws other " : "", (unsigned long long)r);
		}
		uint32_t v = (uint32_t)edge(); int n = 1 + (int)rnd(31);
		uint32_t e = 0; for (int j = 0; j < 32; j++) if (v >> j & 1) e |= 1u << ((j + n) % 32);
		CHECK(stdex::rol(v, n) == e, "rol", "rol(%u,%d) -> %u, expected %u", v, n, stdex::rol(v, n), e);
		int32_t x = (int32_t)edge(), y = (int32_t)edge(), q = (int32_t)edge();
		if (q) { int64_t z = (int64_t)x * y / q; if (z == (int32_t)z) CHECK(stdex::muldiv(x, y, q) == z, "muldiv32", "muldiv(%d,%d,%d) -> %d", x, y, q, stdex::muldiv(x, y, q)); }
		{ // products one below or above a multiple of the divisor
			uint32_t q3 = (uint32_t)edge() | 1, k3 = (uint32_t)rnd(), i3; if (q3 > 2 && k3 > 1 && (i3 = inv(k3, q3))) { uint32_t n3 = chance(1, 2) ? q3 - i3 : i3; uint64_t z = (uint64_t)n3 * k3 / q3; if (z == (uint32_t)z) CHECK(stdex::muldiv(n3, k3, q3) == z, "muldivu32", "muldiv(%u,%u,%u) -> %u", n3, k3, q3, stdex::muldiv(n3, k3, q3));
				int32_t a3 = (int32_t)(q3 >> 1 | 1), b3 = (int32_t)(k3 >> 1); if (a3 > 2 && b3 > 1 && (i3 = inv(b3, a3))) { int32_t n4 = chance(1, 2) ? a3 - (int32_t)i3 : (int32_t)i3; if (chance(1, 2)) n4 = -n4; int64_t z4 = (int64_t)n4 * b3 / a3; if (z4 == (int32_t)z4) CHECK(stdex::muldiv(n4, b3, a3) == z4, "muldiv32", "muldiv(%d,%d,%d) -> %d", n4, b3, a3, stdex::muldiv(n4, b3, a3)); } }
		}
		uint32_t ux = (uint32_t)x, uy = (uint32_t)y, uq = (uint32_t)q;
		if (uq) { uint64_t z = (uint64_t)ux * uy / uq; if (z == (uint32_t)z) CHECK(stdex::muldiv(ux, uy, uq) == z, "muldivu32", "muldiv(%u,%u,%u) -> %u", ux, uy, uq, stdex::muldiv(ux, uy, uq)); }
	}
	return finish();
}
