#include "streams.hpp"
#include <stdex/base64.hpp>
using namespace orc;
static const char abc[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string enc(const std::string &d, size_t mx) {
	std::string o; size_t b = 0;
	for (size_t i = 0; i < d.size(); i += 3) { uint8_t x[3] = {0, 0, 0}; size_t n = d.size() - i < 3 ? d.size() - i : 3; for (size_t k = 0; k < n; k++) x[k] = (uint8_t)d[i + k];
		if (b >= mx) { o += '\n'; b = 0; } b++; o += abc[x[0] >> 2]; o += abc[(x[0] << 4 | x[1] >> 4) & 63]; o += n > 1 ? abc[(x[1] << 2 | x[2] >> 6) & 63] : '='; o += n > 2 ? abc[x[2] & 63] : '='; }
	return o; }
static void wr() {
	CASE(); mem_stream s; s.shorts = false; std::string d = blob(size(chance(1, 20) ? 5000 : 200)), sp; static const size_t ls[] = {1, 2, 3, 19, SIZE_MAX, SIZE_MAX / 4}; size_t mx = ls[rnd(6)]; char t[40];
	{ stdex::base64_writer w(s, mx); for (size_t o = 0; o < d.size();) { size_t n = chance(1, 3) ? d.size() - o : rnd(d.size() - o + 1); std::vector<char> part(d.begin() + o, d.begin() + o + n); part.shrink_to_fit(); size_t k = w.write(part.data(), n); sprintf(t, "%zu ", n); sp += t; CHECK(k == n && w.ok(), "write", "write of %zu returned %zu, ok %d (split %s)", n, k, w.ok(), sp.c_str()); o += n; } }
	std::string e = enc(d, mx); CHECK(s.out == e, "text", "bytes %s lines of %zu split %s: wrote %s expected %s", hex(d).c_str(), mx, sp.c_str(), s.out.c_str(), e.c_str()); }
static void rd() {
	CASE(); mem_stream s; std::string d, sp; char t[60];
	for (int k = 1 + (int)rnd(chance(1, 4) ? 3 : 1); k-- > 0;) { std::string x = blob(size(chance(1, 20) ? 3000 : 100)); d += x; s.in += enc(x, chance(1, 2) ? 19 : SIZE_MAX); }
	if (chance(1, 2)) { std::string n; for (char c : s.in) { while (chance(1, 6)) n += chance(1, 3) ? (char)(128 + rnd(128)) : " \r\n-_.,#\x7f"[rnd(9)]; n += c; } s.in = n; }
	if (chance(1, 4)) s.in += std::string("QUJ").substr(0, 1 + rnd(3));
	stdex::base64_reader r(s); std::string got; size_t idle = 0;
	for (;;) { size_t n = chance(1, 20) ? 0 : 1 + size(chance(1, 3) ? 4 : 60); std::vector<char> b(n); size_t k = r.read(b.data(), n); sprintf(t, "%zu->%zu ", n, k); if (sp.size() < 300) sp += t; CHECK(k <= n, "count", "read of %zu returned %zu", n, k); got.append(b.data(), k <= n ? k : n);
		CHECK(d.compare(0, got.size(), got) == 0, "bytes", "text %s reads %s: got %s expected a prefix of %s", hex(s.in).c_str(), sp.c_str(), hex(got).c_str(), hex(d).c_str());
		if (!r.ok()) break; if (got.size() > d.size() || (!k && n && ++idle > 1000)) break; }
	CHECK(got == d && r.state() == stdex::stream::state_t::eof, "all", "text %s reads %s: %zu of %zu bytes, state %d", hex(s.in).c_str(), sp.c_str(), got.size(), d.size(), (int)r.state()); }
int main() { init(); while (more()) for (int i = 0; i < 200; i++) { wr(); rd(); } return finish(); }
