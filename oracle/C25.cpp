#include "streams.hpp"
using namespace orc;
using stdex::stream::state_t;
static void run() {
	CASE(); stdex::stream::fifo f; std::string q;
	for (int k = 0; k < 20; k++) switch (rnd(7)) {
		case 0: case 1: case 2: { size_t n = chance(1, 5) ? 0 : rnd(40); std::string b = blob(n); block d(b); size_t w = f.write((const char*)d, n); CHECK(w == n && f.ok(), "write", "write(%zu) returned %zu", n, w); q += b; CHECK(f.size() == q.size(), "size", "size %zu instead of %zu after write(%zu)", f.size(), q.size(), n); break; }
		case 3: case 4: case 5: { size_t n = chance(1, 6) ? 0 : chance(1, 4) ? q.size() : rnd(70); std::string b = blob(n); block d(b); size_t r = f.read((char*)d, n), want = std::min(n, q.size()); CHECK(r == want, "read", "read(%zu) of %zu returned %zu", n, q.size(), r); if (r == want) CHECK(q.compare(0, r, (char*)d, r) == 0 && b.compare(r, n - r, (char*)d + r, n - r) == 0, "data", "read(%zu) of %zu: bytes differ", n, q.size()); CHECK(f.state() == (n && !want ? state_t::eof : state_t::ok), "state", "read(%zu) of %zu: state %d", n, q.size(), (int)f.state()); q.erase(0, want); CHECK(f.size() == q.size(), "size", "size %zu instead of %zu after read(%zu)", f.size(), q.size(), n); break; }
		case 6: if (chance(1, 4)) { f.close(); q.clear(); CHECK(!f.size() && f.ok(), "close", "size %zu after close", f.size()); } break;
	}
}
int main() { init(); while (more()) for (int i = 0; i < 100; i++) run(); return finish(); }
