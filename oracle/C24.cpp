#include "streams.hpp"
using namespace orc;
using stdex::stream::state_t; using stdex::stream::memory_file; using stdex::stream::seek_t;
static const char *nm(state_t s) { return s == state_t::ok ? "ok" : s == state_t::eof ? "eof" : "fail"; }
struct model {
	std::string c; size_t pos = 0;
	void put(const std::string &s) { if (s.empty()) return; if (pos > c.size()) c.resize(pos, 0); if (c.size() < pos + s.size()) c.resize(pos + s.size()); c.replace(pos, s.size(), s); pos += s.size(); }
	size_t left() const { return pos < c.size() ? c.size() - pos : 0; }
};
static std::string content(memory_file &f) { return std::string((const char*)f.data(), (size_t)f.size()); }
static std::string u32(uint32_t n) { std::string r; for (int i = 0; i < 4; i++) r += (char)(n >> 8 * i); return r; }
static void check(memory_file &f, const model &m, const char *what, size_t a) {
	CHECK(f.size() == m.c.size() && f.tell() == m.pos, "position", "after %s(%zu): size %llu at %llu, expected %zu at %zu", what, a, (unsigned long long)f.size(), (unsigned long long)f.tell(), m.c.size(), m.pos);
	if (f.size() == m.c.size()) { std::string c = content(f); size_t k = 0; while (k < c.size() && c[k] == m.c[k]) k++; CHECK(c == m.c, "content", "after %s(%zu): byte %zu of %zu is %02x instead of %02x", what, a, k, c.size(), k < c.size() ? (uint8_t)c[k] : 0, k < c.size() ? (uint8_t)m.c[k] : 0); }
}
template <class T> static void rdval(memory_file &f, model &m) { T x = (T)edge(), want = 0; bool was = f.ok(); f >> x; bool fits = was && m.pos + sizeof(T) <= m.c.size(); if (fits) { memcpy(&want, m.c.data() + m.pos, sizeof(T)); m.pos += sizeof(T); } else if (was && m.pos < m.c.size()) m.pos = m.c.size(); CHECK(x == want && f.ok() == fits, "value", "reading %zu bytes at %zu of %zu: %llx, expected %llx, state %s", sizeof(T), m.pos, m.c.size(), (unsigned long long)x, (unsigned long long)want, nm(f.state())); check(f, m, "read value", sizeof(T)); }
template <class T> static void wrval(memory_file &f, model &m) { T x = (T)edge(); bool was = f.ok(); f << x; if (was) m.put(std::string((char*)&x, sizeof(T))); check(f, m, "write value", sizeof(T)); }
template <class T> static void strs(memory_file &f, model &m) {
	std::basic_string<T> t(rnd(20), 0); for (auto &x : t) x = (T)(1 + rnd(100)); bool was = f.ok(); size_t p0 = m.pos; if (chance(1, 2)) f << t; else f << t.c_str(); if (was) m.put(u32((uint32_t)t.size()) + std::string((char*)t.data(), t.size() * sizeof(T))); check(f, m, "write string", t.size());
	if (was) { f.seek((int64_t)p0); std::basic_string<T> r(3, 'x'); f >> r; CHECK(r == t && f.ok(), "string", "string of %zu came back with %zu, state %s", t.size(), r.size(), nm(f.state())); check(f, m, "read string", t.size()); }
	std::basic_string<T> r(3, 'x'); was = f.ok(); bool hd = was && m.pos + 4 <= m.c.size(); f >> r; uint32_t n = 0; if (hd) { memcpy(&n, m.c.data() + m.pos, 4); } size_t av = hd ? std::min<size_t>(n, (m.c.size() - m.pos - 4) / sizeof(T)) : 0; bool full = hd && av == n;
	CHECK(r.size() == av && (av == 0 || !memcmp(r.data(), m.c.data() + m.pos + 4, av * sizeof(T))) && f.ok() == full, "string", "string of %u at %zu of %zu: %zu characters, state %s", n, m.pos, m.c.size(), r.size(), nm(f.state())); if (full) m.pos += 4 + av * sizeof(T); else if (was && m.pos < m.c.size()) m.pos = m.c.size(); check(f, m, "read string", n);
}
static void run() {
	CASE(); model m; std::unique_ptr<memory_file> f; std::string init = blob(rnd(60)); size_t room = init.size() + rnd(40); std::unique_ptr<char[]> ext; bool foreign = chance(1, 4);
	if (foreign) { ext.reset(new char[room]); memset(ext.get(), 0x5a, room); memcpy(ext.get(), init.data(), init.size()); f.reset(new memory_file(ext.get(), init.size(), room, false)); m.c = init; }
	else if (chance(1, 2)) { char *p = (char*)malloc(room ? room : 1); memset(p, 0x5a, room); memcpy(p, init.data(), init.size()); f.reset(new memory_file(p, init.size(), room, true)); m.c = init; }
	else f.reset(new memory_file());
	for (int k = 0; k < 14; k++) switch (rnd(14)) {
		case 0: case 1: { size_t n = rnd(40); std::string b = blob(n); block d(b); size_t w = f->write((const char*)d, n); if (f->ok()) { CHECK(w == n, "write", "write(%zu) returned %zu", n, w); if (foreign && n) CHECK(m.pos + n <= room, "foreign", "write(%zu) at %zu into %zu bytes accepted", n, m.pos, room); m.put(b); } else CHECK(!w && foreign, "write", "write(%zu) failed", n); if (n) check(*f, m, "write", n); else if (f->size() != m.c.size()) m.c.resize(f->size(), 0); break; }
		case 2: case 3: { size_t n = rnd(40); std::string b = blob(n); block d(b); size_t r = f->read((char*)d, n), want = std::min(n, m.left()); CHECK(r == want && f->ok() == !(n && !want), "read", "read(%zu) at %zu of %zu returned %zu, state %s", n, m.pos, m.c.size(), r, nm(f->state())); if (r == want) { CHECK(m.c.compare(std::min(m.pos, m.c.size()), r, (char*)d, r) == 0 && b.compare(r, n - r, (char*)d + r, n - r) == 0, "data", "read(%zu) at %zu of %zu: bytes differ", n, m.pos, m.c.size()); m.pos += r; } check(*f, m, "read", n); break; }
		case 4: { int h = (int)rnd(3); int64_t base = h == 0 ? 0 : h == 1 ? (int64_t)m.pos : (int64_t)m.c.size(), o = (int64_t)rnd(120) - (h ? 60 : 10); bool t = false; uint64_t r = 0; try { r = f->seek(o, (seek_t)h); } catch (const std::exception&) { t = true; } CHECK(t == (base + o < 0) && (t || r == (uint64_t)(base + o)), "seek", "seek(%lld, %d) gave %llu", (long long)o, h, (unsigned long long)r); if (!t) m.pos = base + o; check(*f, m, "seek", 0); break; }
		case 5: { f->truncate(); if (f->ok()) { m.c.resize(m.pos, 0); if (foreign) CHECK(m.pos <= room, "foreign", "truncate at %zu of %zu accepted", m.pos, room); } else CHECK(foreign && m.pos > room, "truncate", "truncate at %zu failed", m.pos); check(*f, m, "truncate", 0); break; }
		case 6: { size_t n = rnd(30); uint8_t b = rnd(256); f->write_byte(b, n); if (f->ok()) m.put(std::string(n, (char)b)); if (n) check(*f, m, "write_byte", n); else if (f->size() != m.c.size()) m.c.resize(f->size(), 0); break; }
		case 7: { bool t = chance(1, 2); size_t n = rnd(80); f->reserve(n, t); if (f->ok() && t && n < m.c.size()) m.c.resize(n); check(*f, m, "reserve", n); break; }
		case 8: { mem_stream s; s.in = blob(rnd(50)); size_t a = chance(1, 2) ? SIZE_MAX : rnd(60); size_t n = f->write_stream(s, a); CHECK(n == s.pos, "write_stream", "write_stream(%zu) returned %zu after reading %zu", a, n, s.pos); if (f->ok()) CHECK(n == std::min(a, s.in.size()), "write_stream", "write_stream(%zu) of %zu bytes copied %zu", a, s.in.size(), n); m.put(s.in.substr(0, s.pos)); check(*f, m, "write_stream", a); break; }
		case 9: rdval<uint8_t>(*f, m); rdval<uint16_t>(*f, m); rdval<uint32_t>(*f, m); rdval<uint64_t>(*f, m); break;
		case 10: if (!foreign) { wrval<uint8_t>(*f, m); wrval<uint16_t>(*f, m); wrval<uint32_t>(*f, m); wrval<uint64_t>(*f, m); } break;
		case 11: if (!foreign) { if (chance(1, 2)) strs<char>(*f, m); else strs<wchar_t>(*f, m); } break;
		case 12: { size_t mx = chance(1, 2) ? SIZE_MAX : rnd(50), want = std::min(mx, m.left()); std::vector<uint8_t> v; bool t = false; try { v = f->read_remainder(mx); } catch (const std::exception&) { t = true; } CHECK(!t && v.size() == want && (!want || !memcmp(v.data(), m.c.data() + m.pos, want)), "remainder", "read_remainder(%zu) at %zu of %zu: %zu bytes%s", mx, m.pos, m.c.size(), v.size(), t ? ", thrown" : ""); m.pos += want; check(*f, m, "read_remainder", mx); break; }
		case 13: { if (chance(1, 2)) { memory_file g(*f); check(g, m, "copy", 0); memory_file h(std::move(g)); check(h, m, "move", 0); CHECK(!g.size() && !g.tell(), "moved", "source not empty after move"); memory_file i; i << (uint32_t)1; i = h; check(i, m, "assignment", 0); memory_file j; j << (uint32_t)1; j = std::move(i); check(j, m, "move assignment", 0); } else if (chance(1, 4)) { f->close(); m = model(); foreign = false; check(*f, m, "close", 0); } break; }
	}
}
int main() { init(); while (more()) for (int i = 0; i < 100; i++) run(); return finish(); }
