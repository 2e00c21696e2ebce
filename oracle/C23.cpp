#include "streams.hpp"
using namespace orc;
using namespace stdex::stream;
// a plain file: the reference, and (with operations that may fail) the file under the cache
struct plain : basic_file {
	std::string s; size_t p = 0; size_t seek_max = (size_t)1 << 61; size_t room = SIZE_MAX; bool failed = false; int flushes = 0;
	size_t read(void *d, size_t n) override { size_t k = p < s.size() ? std::min(n, s.size() - p) : 0; memcpy(d, s.data() + (k ? p : 0), k); p += k; m_state = k || !n ? state_t::ok : state_t::eof; return k; }
	size_t write(const void *d, size_t n) override { size_t k = std::min(n, room); if (k < n) failed = true; if (k) { if (p + k > s.size()) s.resize(p + k, 0); memcpy(&s[p], d, k); p += k; } if (room != SIZE_MAX) room -= k; m_state = k == n ? state_t::ok : state_t::fail; return k; }
	stdex::stream::fpos_t seek(foff_t o, seek_t h) override { foff_t b = h == seek_t::beg ? 0 : h == seek_t::cur ? (foff_t)p : (foff_t)s.size(); if ((size_t)(b + o) > seek_max) { failed = true; m_state = state_t::fail; return fpos_max; } p = b + o; m_state = state_t::ok; return p; }
	stdex::stream::fpos_t tell() const override { return p; }
	fsize_t size() const override { return s.size(); }
	void truncate() override { s.resize(p, 0); m_state = state_t::ok; }
	void flush() override { flushes++; m_state = state_t::ok; }
	void lock(stdex::stream::fpos_t, fsize_t) override {} void unlock(stdex::stream::fpos_t, fsize_t) override {}
	time_point ctime() const override { return time_point(); } time_point atime() const override { return time_point(); } time_point mtime() const override { return time_point(); } void set_ctime(time_point) override {} void set_atime(time_point) override {} void set_mtime(time_point) override {}
};
static void run() {
	CASE(); plain u, r; u.s = r.s = blob(rnd(60)); u.p = r.p = rnd(70); bool faulty = chance(1, 4); if (faulty) { u.seek_max = 100; if (chance(1, 2)) u.room = rnd(80); }
	// junk heap memory, so that bytes nobody stored are seen
	size_t cap = 1 + rnd(24); { char *j = new char[cap]; memset(j, 0xa5, cap); delete[] j; }
	std::string log; 
	auto settle = [&](cache &c, const char *w) { if (!u.failed) CHECK(c.size() == r.size() && c.tell() == r.p, w, "%s capacity %zu:%s: size %zu, position %zu; the file itself %zu, %zu", w, cap, log.c_str(), (size_t)c.size(), (size_t)c.tell(), r.s.size(), r.p); };
	try {
		cache c(u, cap);
		for (int k = 0; k < 12; k++) {
			char b[80]; 
			switch (rnd(7)) {
			case 0: case 1: { size_t n = rnd(40); snprintf(b, 80, " read(%zu)@%zu", n, r.p); log += b; std::string x = blob(n), y = x; block d(x); size_t p0 = r.p, m = c.read((char*)d, n), q = r.read(&y[0], n); if (u.failed) { CHECK(m <= q && y.compare(0, m, (char*)d, m) == 0, "read with faults", "%s", log.c_str()); r.p = p0 + m; } else { CHECK(m == q && y.compare(0, n, (char*)d, n) == 0, "read", "capacity %zu:%s returned %zu, the file itself %zu%s", cap, log.c_str(), m, q, m == q ? ", other bytes" : ""); if (n) CHECK(c.state() == r.state(), "read state", "capacity %zu:%s", cap, log.c_str()); } break; }
			case 2: case 3: { size_t n = 1 + rnd(40); snprintf(b, 80, " write(%zu)@%zu", n, r.p); log += b; std::string x = blob(n); block d(x); size_t m = c.write((char*)d, n); r.write(x.data(), m); CHECK(m == n ? c.ok() : u.failed && !c.ok(), "write", "capacity %zu:%s returned %zu", cap, log.c_str(), m); break; }
			case 4: { size_t o = faulty && chance(1, 4) ? 150 + rnd(30) : rnd(70); snprintf(b, 80, " seek(%zu)", o); log += b; if (chance(1, 3) && !faulty) { foff_t e = -(foff_t)rnd(r.s.size() + 1); snprintf(b, 80, "end%+d", (int)e); log += b; c.seek(e, seek_t::end); r.seek(e, seek_t::end); } else { c.seekbeg(o); r.seekbeg(o); } break; }
			case 5: { if (faulty) break; snprintf(b, 80, " truncate@%zu", r.p); log += b; c.truncate(); r.truncate(); CHECK(c.ok(), "truncate", "capacity %zu:%s", cap, log.c_str()); break; }
			case 6: { log += " flush"; c.flush(); if (c.ok()) CHECK(u.s == r.s, "flush", "capacity %zu:%s: the file differs (%zu/%zu bytes)", cap, log.c_str(), u.s.size(), r.s.size()); else CHECK(u.failed, "flush", "capacity %zu:%s fails", cap, log.c_str()); break; }
			}
			settle(c, "after");
		}
		log += " end";
	} catch (const std::exception &) { CHECK(u.failed, "exception", "capacity %zu:%s", cap, log.c_str()); return; }
	if (!u.failed) CHECK(u.s == r.s && u.p == r.p, "end", "capacity %zu:%s: the file differs (%zu/%zu bytes)", cap, log.c_str(), u.s.size(), r.s.size());
	else CHECK(u.s == r.s, "end with faults", "capacity %zu:%s: the file differs (%zu/%zu bytes)", cap, log.c_str(), u.s.size(), r.s.size());
}
int main() { init(); while (more()) for (int i = 0; i < 100; i++) run(); return finish(); }
