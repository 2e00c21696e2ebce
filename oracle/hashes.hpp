#include "oracle.hpp"
#include <math.h>
#include <sys/mman.h>
using namespace orc;
static inline uint32_t rl(uint32_t x, int n) { return n & 31 ? x << (n & 31) | x >> (32 - (n & 31)) : x; }
typedef std::vector<uint8_t> V;
static V pad(const V &d, bool be) { V m = d; m.push_back(0x80); while (m.size() % 64 != 56) m.push_back(0); uint64_t b = (uint64_t)d.size() * 8; for (int i = 0; i < 8; i++) m.push_back((uint8_t)(b >> (be ? 56 - 8 * i : 8 * i))); return m; }
static V md5(const V &d) { V m = pad(d, false); uint32_t h[4] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476 }; static const int S[4][4] = { { 7,12,17,22 }, { 5,9,14,20 }, { 4,11,16,23 }, { 6,10,15,21 } };
	for (size_t o = 0; o < m.size(); o += 64) { uint32_t a = h[0], b = h[1], c = h[2], e = h[3]; for (int i = 0; i < 64; i++) { uint32_t f; int g; switch (i / 16) { case 0: f = (b & c) | (~b & e); g = i; break; case 1: f = (b & e) | (c & ~e); g = (5 * i + 1) % 16; break; case 2: f = b ^ c ^ e; g = (3 * i + 5) % 16; break; default: f = c ^ (b | ~e); g = 7 * i % 16; }
		uint32_t w = m[o + 4 * g] | m[o + 4 * g + 1] << 8 | m[o + 4 * g + 2] << 16 | (uint32_t)m[o + 4 * g + 3] << 24; uint32_t x = a + f + w + (uint32_t)floor(fabs(sin(i + 1.0)) * 4294967296.0); a = e; e = c; c = b; b += rl(x, S[i / 16][i % 4]); }
		h[0] += a; h[1] += b; h[2] += c; h[3] += e; }
	V r; for (uint32_t x : h) for (int i = 0; i < 4; i++) r.push_back((uint8_t)(x >> 8 * i)); return r; }
static V sha1(const V &d) { V m = pad(d, true); uint32_t h[5] = { 0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0 };
	for (size_t o = 0; o < m.size(); o += 64) { uint32_t w[80]; for (int i = 0; i < 80; i++) w[i] = i < 16 ? (uint32_t)m[o + 4 * i] << 24 | m[o + 4 * i + 1] << 16 | m[o + 4 * i + 2] << 8 | m[o + 4 * i + 3] : rl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
		uint32_t a = h[0], b = h[1], c = h[2], e = h[3], g = h[4]; for (int i = 0; i < 80; i++) { uint32_t f = i < 20 ? (b & c) | (~b & e) : i < 40 ? b ^ c ^ e : i < 60 ? (b & c) | (b & e) | (c & e) : b ^ c ^ e, k = i < 20 ? 0x5a827999 : i < 40 ? 0x6ed9eba1 : i < 60 ? 0x8f1bbcdc : 0xca62c1d6; uint32_t x = rl(a, 5) + f + g + k + w[i]; g = e; e = c; c = rl(b, 30); b = a; a = x; }
		h[0] += a; h[1] += b; h[2] += c; h[3] += e; h[4] += g; }
	V r; for (uint32_t x : h) for (int i = 3; i >= 0; i--) r.push_back((uint8_t)(x >> 8 * i)); return r; }
// state continuation: bit counter placed next to a boundary, the same data given in one and in two calls
template<class H> static void one(V (*ref)(const V&), const char *nm) { CASE();
	V d = bytes(chance(1, 2) ? rnd(300) : 64 * rnd(4) + rnd(4) + 54); H h; if (chance(1, 3)) { h.hash(d.data(), d.size()); if (chance(1, 2)) h.finalize(); h.clear(); }
	size_t p = 0; while (p < d.size()) { size_t k = chance(1, 2) ? rnd(d.size() - p + 1) : std::min<size_t>(d.size() - p, 55 + rnd(12)); h.hash(d.data() + p, k); p += k; } h.finalize();
	V r = ref(d); CHECK(memcmp(&h.data(), r.data(), r.size()) == 0, nm, "bytes %s: digest %s expected %s", hexv(d).c_str(), hex(&h.data(), r.size()).c_str(), hexv(r).c_str());
	// long inputs: the counter continues over 2^32 bits
	H a, b; uint64_t c = ((uint64_t)1 << (3 + rnd(61))) - 512 * (1 + rnd(3)); for (H *q : { &a, &b }) { q->m_counter[0] = (uint32_t)c; q->m_counter[1] = (uint32_t)(c >> 32); }
	c += (uint64_t)d.size() * 8; a.hash(d.data(), d.size()); size_t cut = rnd(d.size() + 1); b.hash(d.data(), cut); b.hash(d.data() + cut, d.size() - cut);
	CHECK(a.m_counter[0] == (uint32_t)c && a.m_counter[1] == (uint32_t)(c >> 32), "bit-count", "%s: counter %08x%08x expected %016llx after %zu bytes", nm, a.m_counter[1], a.m_counter[0], (unsigned long long)c, d.size());
	a.finalize(); b.finalize(); CHECK(memcmp(&a.data(), &b.data(), r.size()) == 0, "division", "%s: %zu bytes given at once and as %zu + %zu differ at bit count %llx", nm, d.size(), cut, d.size() - cut, (unsigned long long)c);
}
// one block of more than 4 GiB (zero pages) against the bit count; needs no memory
template<class H> static void huge(const char *nm) {
	struct fast : H { void hash_block() override {} } f; size_t n = ((size_t)1 << 32) + rnd(1 << 20);
	void *p = mmap(0, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return;
	f.hash(p, n); uint64_t c = (uint64_t)n * 8; CHECK(f.m_counter[0] == (uint32_t)c && f.m_counter[1] == (uint32_t)(c >> 32), "bit-count-4GiB", "%s: counter %08x%08x after %zu bytes", nm, f.m_counter[1], f.m_counter[0], n); munmap(p, n); }
