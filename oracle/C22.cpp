#include "streams.hpp"
using namespace orc;
using stdex::stream::state_t;
static const char *nm(state_t s) { return s == state_t::ok ? "ok" : s == state_t::eof ? "eof" : "fail"; }
struct full_sink : mem_stream { size_t write(const void *d, size_t n) override { calls++; size_t k = n; if (out.size() + k > fail_write_at) k = fail_write_at - std::min(fail_write_at, out.size()); out.append((const char*)d, k); m_state = k == n ? state_t::ok : state_t::fail; return k; } };
static void run() {
	CASE(); full_sink s; s.in = blob(size(400)); if (chance(1, 4)) s.fail_write_at = rnd(300); size_t rc = chance(1, 6) ? 0 : 1 + rnd(50), wc = chance(1, 6) ? 0 : 1 + rnd(50); std::string given; size_t got = 0; bool dead = false;
	{
		stdex::stream::buffer b(s, rc, wc);
		for (int k = 0; k < 16 && !dead; k++) switch (rnd(5)) {
			case 0: case 1: { size_t n = chance(1, 6) ? 0 : rnd(90); std::string x = blob(n); block d(x); size_t m = b.read((char*)d, n); CHECK(m <= n && got + m <= s.in.size() && s.in.compare(got, m, (char*)d, m) == 0 && x.compare(m, n - m, (char*)d + m, n - m) == 0, "read", "read(%zu) at %zu of %zu through %zu: returned %zu", n, got, s.in.size(), rc, m); got += m; CHECK(b.ok() == (m || !n) && (m || !n || got == s.in.size()), "read state", "read(%zu) at %zu of %zu through %zu: %zu, state %s", n, got, s.in.size(), rc, m, nm(b.state())); CHECK(s.pos >= got && s.pos - got <= rc, "ahead", "%zu bytes read ahead through %zu", s.pos - got, rc); break; }
			case 2: case 3: { size_t n = rnd(90); std::string x = blob(n); block d(x); size_t m = b.write((char*)d, n); CHECK(m <= n && (m == n || !b.ok()), "write", "write(%zu) through %zu: returned %zu, state %s", n, wc, m, nm(b.state())); given += x.substr(0, m); CHECK(s.out.size() <= given.size() && given.compare(0, s.out.size(), s.out) == 0, "output", "after write(%zu) through %zu: %zu bytes delivered of %zu", n, wc, s.out.size(), given.size()); if (m < n) dead = true; break; }
			case 4: { b.flush(); CHECK(!b.ok() || s.out == given, "flush", "flush through %zu: %zu bytes delivered of %zu", wc, s.out.size(), given.size()); if (!b.ok()) { CHECK(s.fail_write_at < given.size(), "flush", "flush failed"); dead = true; } break; }
		}
	}
	std::string want = given.substr(0, s.fail_write_at); CHECK(s.out == want, "end", "%zu of %zu bytes delivered at the end through %zu", s.out.size(), want.size(), wc);
}
int main() { init(); while (more()) for (int i = 0; i < 100; i++) run(); return finish(); }
