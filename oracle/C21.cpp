#include "streams.hpp"
using namespace orc;
using stdex::stream::state_t;
static const char *nm(state_t s) { return s == state_t::ok ? "ok" : s == state_t::eof ? "eof" : "fail"; }
static void rd() {
	CASE(); mem_stream s; s.in = blob(size(400)); if (chance(1, 5)) s.fail_read_at = rnd(300); uint64_t ro = chance(1, 3) ? 0 : rnd(60), rl = chance(1, 4) ? UINT64_MAX : rnd(200); stdex::stream::window w(s, ro, rl);
	size_t base = ro; uint64_t lim = rl; bool first = true;
	for (int k = 0; k < 8; k++) { size_t n = chance(1, 8) ? 0 : rnd(100); std::string b = blob(n); block d(b); size_t m; try { m = w.read((char*)d, n); } catch (const std::system_error&) { return; }
		if (w.read_offset) { CHECK(!m && !w.ok(), "skip", "skipping %llu failed but %zu bytes, state %s", (unsigned long long)ro, m, nm(w.state())); return; }
		CHECK(m <= n && m <= lim, "count", "read(%zu) with %llu bytes left in the window returned %zu", n, (unsigned long long)lim, m); if (m > n) return;
		CHECK(base + m <= s.in.size() && s.in.compare(base, m, (char*)d, m) == 0, "data", "read(%zu) at offset %zu (window offset %llu, limit %llu): bytes differ", n, base, (unsigned long long)ro, (unsigned long long)rl); CHECK(b.compare(m, n - m, (char*)d + m, n - m) == 0, "tail", "read(%zu) touched bytes behind the %zu returned", n, m);
		if (n && !lim) { CHECK(!m && w.state() == state_t::eof, "eof", "read(%zu) behind the window: %zu bytes, state %s", n, m, nm(w.state())); return; }
		base += m; if (lim != UINT64_MAX) lim -= m; CHECK(s.pos == base, "position", "read(%zu): stream at %zu instead of %zu", n, s.pos, base); CHECK(w.read_limit == lim, "limit", "limit %llu instead of %llu", (unsigned long long)w.read_limit, (unsigned long long)lim); CHECK(w.state() == s.state(), "state", "state %s, stream %s", nm(w.state()), nm(s.state())); if (!w.ok()) return; }
}
static void wr() {
	CASE(); mem_stream s; if (chance(1, 4)) s.fail_write_at = rnd(200); uint64_t wo = chance(1, 3) ? 0 : rnd(80), wl = chance(1, 4) ? UINT64_MAX : rnd(150); stdex::stream::window w(s, 0, 0, wo, wl); std::string all;
	for (int k = 0; k < 12; k++) { size_t n = chance(1, 8) ? 0 : rnd(100); std::string b = blob(n); block d(b); size_t c0 = s.calls, before = all.size(); size_t m = w.write((const char*)d, n); CHECK(m <= n, "count", "write(%zu) returned %zu", n, m); if (m > n) return; all.append(b, 0, m);
		std::string want = all.substr(std::min<size_t>(all.size(), wo)); if (want.size() > wl) want.resize(wl); CHECK(s.out == want, "data", "write(%zu) returned %zu after %zu bytes (window offset %llu, limit %llu): stream holds %zu bytes, expected %zu", n, m, before, (unsigned long long)wo, (unsigned long long)wl, s.out.size(), want.size());
		bool needs = before + n > wo && s.calls > c0; if (n && !needs) CHECK(m == n && w.ok(), "discard", "write(%zu) outside the window: %zu, state %s", n, m, nm(w.state())); if (needs) CHECK(w.state() == s.state(), "state", "state %s, stream %s", nm(w.state()), nm(s.state())); }
}
int main() { init(); while (more()) for (int i = 0; i < 100; i++) { rd(); wr(); } return finish(); }
