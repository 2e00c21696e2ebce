#include "streams.hpp"
using namespace orc;
using stdex::stream::state_t; using stdex::stream::basic;
static const char *nm(state_t s) { return s == state_t::ok ? "ok" : s == state_t::eof ? "eof" : "fail"; }
static mem_stream src(size_t n) { mem_stream s; s.in = blob(n); if (chance(1, 5)) s.fail_read_at = rnd(n + 1); return s; }
static size_t avail(const mem_stream &s, size_t from) { return std::min(s.in.size(), s.fail_read_at) - std::min(from, std::min(s.in.size(), s.fail_read_at)); }
static void arrays() {
	CASE(); static const size_t sizes[] = {1,2,3,4,8,16,1000}; size_t es = sizes[rnd(7)]; mem_stream s = src(size(es > 100 ? 9000 : 400)); size_t from = rnd(s.in.size() + 1); if (from > s.fail_read_at) from = s.fail_read_at; s.pos = from;
	size_t cnt = es > 100 ? rnd(12) : rnd(120); std::string before = blob(cnt * es); block d(before); size_t have = avail(s, from); size_t n = s.read_array((char*)d, es, cnt), want = std::min(have, cnt * es);
	CHECK(n == want / es, "read count", "read_array(%zu x %zu) with %zu bytes available returned %zu elements", es, cnt, have, n); CHECK(s.pos == from + want, "read all", "read_array(%zu x %zu) with %zu bytes available consumed %zu", es, cnt, have, s.pos - from);
	CHECK(s.in.compare(from, want, (char*)d, want) == 0 && before.compare(want, before.size() - want, (char*)d + want, before.size() - want) == 0, "read data", "read_array(%zu x %zu): data differ", es, cnt); if (cnt) CHECK((want == cnt * es) == s.ok(), "read state", "read_array(%zu x %zu) with %zu available: state %s", es, cnt, have, nm(s.state()));
	mem_stream o; if (chance(1, 4)) o.fail_write_at = rnd(cnt * es + 1); size_t m = o.write_array((char*)d, es, cnt); CHECK(m == o.out.size() / es, "write count", "write_array(%zu x %zu) wrote %zu bytes but returned %zu", es, cnt, o.out.size(), m); CHECK(d.str().compare(0, o.out.size(), o.out) == 0, "write data", "write_array(%zu x %zu): data differ", es, cnt);
	size_t big = SIZE_MAX / es + 1; if (es > 1) { size_t c0 = s.calls; bool t = false; try { s.read_array((char*)d, es, big); } catch (const std::exception&) { t = true; } CHECK(t && s.calls == c0, "overflow", "read_array(%zu x %zu) did not refuse", es, big); }
}
static void skips() {
	CASE(); mem_stream s = src(size(400)); size_t from = rnd(s.in.size() + 1); if (from > s.fail_read_at) from = s.fail_read_at; s.pos = from; size_t n = chance(1, 10) ? 70000 + rnd(70000) : chance(1, 3) ? rnd(17) : rnd(300); if (n > 1000 && chance(1, 2)) { s.in = blob(200000); s.fail_read_at = SIZE_MAX; }
	size_t have = avail(s, from); bool thrown = false; try { s.basic::skip(n); } catch (const std::system_error&) { thrown = true; } size_t want = std::min(have, n); CHECK(s.pos - from == want, "skip", "skip(%zu) with %zu bytes left moved by %zu", n, have, s.pos - from); if (n) CHECK((want == n) == (!thrown && s.ok()), "skip state", "skip(%zu) with %zu bytes left: state %s%s", n, have, nm(s.state()), thrown ? ", thrown" : "");
	mem_stream o; o.shorts = false; if (chance(1, 4)) o.fail_write_at = rnd(n + 1); uint8_t b = rnd(256); o.write_byte(b, n); size_t w = std::min(o.fail_write_at, n); CHECK(o.out == std::string(w, (char)b), "write_byte", "write_byte(%02x, %zu) wrote %zu bytes (room for %zu)", b, n, o.out.size(), o.fail_write_at);
	mem_stream q; q.in = blob(rnd(2)); bool t = false; uint8_t x = 0; try { x = q.read_byte(); } catch (const std::system_error&) { t = true; } CHECK(t == q.in.empty() && (t || x == (uint8_t)q.in[0]), "read_byte", "read_byte with %zu bytes: %02x", q.in.size(), x);
}
static void copies() {
	CASE(); bool large = chance(1, 20); mem_stream s = src(large ? 60000 + rnd(150000) : size(500)), d; d.out = blob(rnd(5)); std::string pre = d.out; size_t n = chance(1, 3) ? 0 : rnd(large ? 200000 : 600), have = avail(s, 0); if (chance(1, 4)) d.fail_write_at = pre.size() + rnd(s.in.size() + 1); uint64_t amount = chance(1, 3) ? stdex::stream::fsize_max : n;
	uint64_t r = d.write_stream(s, amount); size_t wrote = d.out.size() - pre.size(); CHECK(r == wrote, "copy count", "write_stream(%llu) returned %llu but wrote %zu", (unsigned long long)amount, (unsigned long long)r, wrote); CHECK(wrote <= s.in.size() && d.out == pre + s.in.substr(0, wrote), "copy data", "write_stream(%llu): data differ", (unsigned long long)amount);
	bool full = wrote == amount || (wrote == have && s.fail_read_at >= s.in.size()); if (d.ok()) CHECK(full, "copy state", "write_stream(%llu) stopped at %zu of %zu with state ok", (unsigned long long)amount, wrote, have); if (d.fail_write_at == SIZE_MAX) CHECK(wrote == std::min<uint64_t>(amount, have), "copy all", "write_stream(%llu) copied %zu of %zu", (unsigned long long)amount, wrote, have);
}
static void remainder_() {
	CASE(); bool large = chance(1, 20); mem_stream s = src(large ? 60000 + rnd(150000) : size(500)); size_t max = chance(1, 3) ? SIZE_MAX : rnd(large ? 200000 : 600), have = avail(s, 0); auto v = s.basic::read_remainder(max); size_t want = std::min(max, have); CHECK(v.size() == want && s.in.compare(0, want, (char*)v.data(), want) == 0, "remainder", "read_remainder(%zu) with %zu bytes left returned %zu", max, have, v.size()); CHECK(s.pos == want, "remainder position", "read_remainder(%zu) with %zu left consumed %zu", max, have, s.pos);
}
template <class T> static void values() {
	CASE(); mem_stream s = src(rnd(12)); T x = (T)edge(); size_t have = avail(s, 0); s >> x; T want = 0; if (have >= sizeof(T)) for (size_t i = 0; i < sizeof(T); i++) want |= (T)((T)(uint8_t)s.in[i] << 8 * i); CHECK(x == want && s.ok() == (have >= sizeof(T)), "value", "reading %zu bytes with %zu left: %llx instead of %llx, state %s", sizeof(T), have, (unsigned long long)x, (unsigned long long)want, nm(s.state()));
	T v = (T)edge(), w = 0; mem_stream o; o.shorts = false; o << v; o.in = o.out; o >> w; CHECK(o.out.size() == sizeof(T) && v == w, "round trip", "%llx came back as %llx", (unsigned long long)v, (unsigned long long)w);
}
static void lists() {
	CASE(); std::vector<uint32_t> a(rnd(20)), b(rnd(4)); for (auto &x : a) x = (uint32_t)edge(); mem_stream o; o.shorts = false; o << a; o.in = o.out; o.shorts = true; o >> b; CHECK(a == b && o.ok(), "vector", "vector of %zu came back with %zu elements, state %s", a.size(), b.size(), nm(o.state()));
	if (o.in.size()) { mem_stream t; t.in = o.in.substr(0, rnd(o.in.size())); std::vector<uint32_t> c; t >> c; CHECK(!t.ok(), "truncated vector", "vector of %zu cut to %zu bytes: state ok", a.size(), t.in.size()); }
	std::set<uint32_t> p(a.begin(), a.end()), q; mem_stream u; u.shorts = false; u << p; u.in = u.out; u.shorts = true; u >> q; CHECK(p == q && u.ok(), "set", "set of %zu came back with %zu elements", p.size(), q.size());
}
int main() { init(); while (more()) for (int i = 0; i < 50; i++) { arrays(); skips(); copies(); remainder_(); values<uint8_t>(); values<uint16_t>(); values<uint32_t>(); values<uint64_t>(); lists(); } return finish(); }
