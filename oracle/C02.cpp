#include "oracle.hpp"
#include <stdex/hex.hpp>
using namespace orc;
template<class T> struct ref { int pend = -1; void dec(std::vector<uint8_t> &o, bool &last, const T *d, size_t n) {
	last = false; for (size_t i = 0; i < n && d[i]; i++) { last = false; int v = -1; T x = d[i]; if (x >= '0' && x <= '9') v = x - '0'; else if (x >= 'A' && x <= 'F') v = x - 'A' + 10; else if (x >= 'a' && x <= 'f') v = x - 'a' + 10;
		if (v < 0) continue; if (pend < 0) pend = v; else { o.push_back((uint8_t)(pend << 4 | v)); pend = -1; last = true; } } } };
template<class T> void t() {
	typedef std::basic_string<T> S; CASE();
	static const char al[] = "0123456789ABCDEFabcdef0123456789ABCDEF gGxX/:@`\n";
	// encode in pieces
	auto d = bytes(size(300)); stdex::hex_enc e; S out(rnd(3), (T)'#'), want = out; size_t p = 0;
	while (p < d.size()) { size_t k = rnd(d.size() - p + 1); e.encode(out, d.data() + p, k); p += k; if (!k && chance(1, 2)) e.encode(out, nullptr, 0); }
	for (uint8_t x : d) { want += (T)"0123456789ABCDEF"[x >> 4]; want += (T)"0123456789ABCDEF"[x & 15]; }
	CHECK(out == want, "encode", "bytes %s charsize %d", hexv(d).c_str(), (int)sizeof(T));
	// decode in pieces
	S txt; size_t n = size(200); for (size_t i = 0; i < n; i++) txt += chance(1, 60) ? (T)0 : chance(1, 20) ? (T)rnd() : (T)al[rnd(sizeof(al) - 1)];
	if (chance(1, 3)) txt = want;
	stdex::hex_dec dc; ref<T> rf; std::vector<uint8_t> a(rnd(3), 7), b = a; p = 0;
	do { size_t k = rnd(txt.size() - p + 1); std::vector<T> piece(txt.begin() + p, txt.begin() + p + k); bool la = chance(1, 2), lb = la; dc.decode(a, la, piece.data(), k); rf.dec(b, lb, piece.data(), k); p += k;
		if (a != b || la != lb) { fail("decode", "text %s (pos %zu len %zu charsize %d) out %s expected %s last %d expected %d", hexv(txt).c_str(), p - k, k, (int)sizeof(T), hexv(a).c_str(), hexv(b).c_str(), la, lb); return; }
		if (chance(1, 10)) { dc.clear(); rf.pend = -1; }
	} while (p < txt.size());
}
int main() { init(); while (more()) for (int i = 0; i < 200; i++) { t<char>(); t<wchar_t>(); } return finish(); }
