#include "streams.hpp"
using namespace orc;
using stdex::stream::state_t;
static const char *nm(state_t s) { return s == state_t::ok ? "ok" : s == state_t::eof ? "eof" : "fail"; }
static void go() {
	CASE(); mem_stream s; s.in = blob(size(300)); if (chance(1, 4)) s.fail_read_at = rnd(300); if (chance(1, 4)) s.fail_write_at = rnd(300);
	uint64_t rl = chance(1, 5) ? UINT64_MAX : rnd(400), wl = chance(1, 5) ? UINT64_MAX : rnd(400); stdex::stream::limiter l(s, rl, wl); std::string got, put;
	for (int k = 0; k < 12; k++) {
		size_t n = chance(1, 8) ? 0 : rnd(120), c0 = s.calls; bool rd = chance(1, 2); std::string b = blob(n); uint64_t r0 = l.read_limit, w0 = l.write_limit; size_t p0 = s.pos, o0 = s.out.size();
		block d(b); size_t m = rd ? l.read((char*)d, n) : l.write((const char*)d, n); uint64_t lim = rd ? r0 : w0, lim2 = rd ? l.read_limit : l.write_limit; size_t moved = rd ? s.pos - p0 : s.out.size() - o0;
		const char *op = rd ? "read" : "write";
		CHECK(m == moved && m <= n && m <= lim, "count", "%s(%zu) with allowance %llu returned %zu, the stream transferred %zu", op, n, (unsigned long long)lim, m, moved);
		CHECK(lim2 == (lim == UINT64_MAX ? lim : lim - m), "allowance", "%s(%zu): allowance %llu -> %llu after %zu bytes", op, n, (unsigned long long)lim, (unsigned long long)lim2, m);
		CHECK((rd ? l.write_limit == w0 : l.read_limit == r0), "other", "%s changed the other allowance", op);
		CHECK((rd ? s.in.compare(p0, m, (char*)d, m) == 0 && b.compare(m, n - m, (char*)d + m, n - m) == 0 : s.out.compare(o0, m, b, 0, m) == 0), "data", "%s(%zu): bytes differ", op, n);
		if (n && !lim) CHECK(!m && l.state() == (rd ? state_t::eof : state_t::fail) && s.calls == c0, "end", "%s(%zu) without allowance: %zu bytes, state %s", op, n, m, nm(l.state())); else CHECK(l.state() == s.state(), "state", "%s(%zu): state %s, stream %s", op, n, nm(l.state()), nm(s.state()));
		if (chance(1, 6)) { size_t f = s.flushes; l.flush(); CHECK(s.flushes == f + 1, "flush", "flush not passed on"); }
	}
}
int main() { init(); while (more()) for (int i = 0; i < 100; i++) go(); return finish(); }
