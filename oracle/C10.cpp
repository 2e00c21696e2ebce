#include "oracle.hpp"
#include <stdex/hash.hpp>
using namespace orc;
static uint32_t ref(uint32_t v, const uint8_t *d, size_t n) { for (size_t i = 0; i < n; i++) { v ^= d[i]; for (int j = 0; j < 8; j++) v = v & 1 ? v >> 1 ^ 0xEDB88320u : v >> 1; } return v; }
struct mem : stdex::stream::basic {
	std::vector<uint8_t> in, out; size_t p = 0;
	size_t read(void *d, size_t n) override { size_t k = rnd(n + 1); if (!k && n) k = 1; if (k > in.size() - p) k = in.size() - p; if (k) memcpy(d, in.data() + p, k); p += k; m_state = k || !n ? stdex::stream::state_t::ok : stdex::stream::state_t::eof; return k; }
	size_t write(const void *d, size_t n) override { size_t k = rnd(n + 1); if (!k && n) k = 1; out.insert(out.end(), (const uint8_t*)d, (const uint8_t*)d + k); m_state = stdex::stream::state_t::ok; return k; }
};
int main() { init(); while (more()) { CASE();
	auto d = bytes(size(600)); uint32_t c0 = (uint32_t)rnd(); bool with = chance(1, 2); stdex::crc32_hash h = with ? stdex::crc32_hash(c0) : stdex::crc32_hash();
	uint32_t v = with ? ~c0 : 0xffffffffu; if (chance(1, 4)) { h.hash(d.data(), d.size()); h.clear(); v = 0xffffffffu; }
	size_t p = 0; while (p < d.size()) { size_t k = rnd(d.size() - p + 1); h.hash(d.data() + p, k); p += k; }
	h.finalize(); v = ~ref(v, d.data(), d.size());
	CHECK(h.data() == v, "crc", "bytes %s start %08x: %08x expected %08x", hexv(d).c_str(), with ? c0 : 0, h.data(), v);
	// stream hasher
	mem m; m.in = d; stdex::crc32_hash g; stdex::stream_hasher<stdex::crc32_t> s(g, m); std::vector<uint8_t> got; uint8_t b[64];
	bool rd = chance(1, 2);
	if (rd) { for (;;) { size_t k = s.read(b, 1 + rnd(64)); if (!k) break; got.insert(got.end(), b, b + k); } CHECK(got == d, "hasher-read", "bytes %s", hexv(d).c_str()); CHECK(s.state() == m.state(), "hasher-state", "bytes %s", hexv(d).c_str()); }
	else { size_t q = 0; while (q < d.size()) { size_t k = s.write(d.data() + q, std::min<size_t>(d.size() - q, 1 + rnd(64))); if (!k) break; q += k; } CHECK(m.out == d, "hasher-write", "bytes %s", hexv(d).c_str()); }
	g.finalize(); v = ~ref(0xffffffffu, d.data(), d.size()); CHECK(g.data() == v, "hasher", "%s bytes %s: %08x expected %08x", rd ? "read" : "write", hexv(d).c_str(), g.data(), v);
	} return finish(); }
