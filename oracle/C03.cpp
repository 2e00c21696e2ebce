#include "oracle.hpp"
#include <stdex/base64.hpp>
using namespace orc;
static const char *abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string renc(const std::vector<uint8_t> &v) { std::string s; size_t i = 0; for (; i + 2 < v.size(); i += 3) { uint32_t x = v[i]<<16|v[i+1]<<8|v[i+2]; for (int k = 18; k >= 0; k -= 6) s += abc[x>>k&63]; }
	if (v.size() - i == 1) { s += abc[v[i]>>2]; s += abc[(v[i]&3)<<4]; s += "=="; } else if (v.size() - i == 2) { s += abc[v[i]>>2]; s += abc[(v[i]&3)<<4|v[i+1]>>4]; s += abc[(v[i+1]&15)<<2]; s += '='; } return s; }
template<class T> static void enc() { CASE(); std::vector<uint8_t> v = bytes(size(chance(1,50) ? 5000 : 60)); stdex::base64_enc e; std::basic_string<T> out; std::string pre = chance(1,2) ? "" : "xy"; for (char ch : pre) out += (T)ch; std::string sp; size_t o = 0; bool lastpart = chance(1,2);
	while (o < v.size() || lastpart) { size_t n = rnd(v.size() - o + 1); if (chance(1,4)) n = v.size() - o; bool last = o + n == v.size() && !(lastpart && chance(1,2)); if (o + n == v.size() && !last) lastpart = true; std::vector<uint8_t> part(v.begin() + o, v.begin() + o + n); e.encode(out, part.data(), n, last); o += n; char b[32]; sprintf(b, "%zu%s ", n, last ? "L" : ""); sp += b; if (last) break; }
	if (v.empty() && !lastpart) e.encode(out, nullptr, 0);
	std::string r = pre + renc(v), g; for (T ch : out) g += (unsigned)ch < 128 ? (char)ch : '?'; CHECK(g == r, "enc", "bytes %s split %s-> %s expected %s", hexv(v).c_str(), sp.c_str(), g.c_str(), r.c_str()); }
template<class T> static void dec() { CASE(); std::string t; std::vector<uint8_t> want; bool padded = false; bool wantlast = false;
	if (chance(1,2)) { want = bytes(size(chance(1,50) ? 5000 : 60)); t = renc(want); }
	else { size_t n = size(60); for (size_t i = 0; i < n; i++) t += chance(1,12) ? '=' : abc[rnd(64)]; }
	{ std::string n; int qi = 0; for (char ch : t) { if (ch == '=' && qi < 2) continue; n += ch; qi = (qi + 1) & 3; } t = n; } // padding only in the last two places of a group
	std::string noise; for (char ch : t) { while (chance(1,8)) { static const char junk[] = " \r\n-_.,#\x7f"; noise += chance(1,10) ? (char)(0x80 + rnd(128)) : junk[rnd(sizeof(junk) - 1)]; } noise += ch; }
	std::basic_string<T> w; for (char ch : noise) w += (sizeof(T) > 1 && (ch & 0x80)) ? (T)(0x100 + (uint8_t)ch + (rnd(3) << 16)) : (T)ch; if (chance(1,8) && !w.empty()) w[rnd(w.size())] = 0; else if (sizeof(T) > 1 && chance(1,8)) w += (T)0x141;
	std::vector<uint8_t> pre = bytes(rnd(3)), out = pre; want = pre;
	stdex::base64_dec d; size_t o = 0; std::string sp; bool last = false; int qn = 0, qb[4];
	while (o < w.size()) { size_t n = chance(1,3) ? w.size() - o : rnd(w.size() - o + 1); std::vector<T> part(w.begin() + o, w.begin() + o + n); part.shrink_to_fit(); last = chance(1,2); d.decode(out, last, part.data(), n); char b[32]; sprintf(b, "%zu ", n); sp += b;
		wantlast = false; for (size_t i = 0; i < n && part[i]; i++) { const char *p = (uint32_t)part[i] < 128 ? strchr(abc, (char)part[i]) : nullptr; int x = p ? (int)(p - abc) : (uint32_t)part[i] == '=' ? 64 : -1; if (x < 0) continue; qb[qn++] = x; if (qn == 4) { qn = 0; want.push_back((uint8_t)(qb[0]<<2|qb[1]>>4)); if (qb[2] < 64) { want.push_back((uint8_t)(qb[1]<<4|qb[2]>>2)); if (qb[3] < 64) want.push_back((uint8_t)(qb[2]<<6|qb[3])); } if (qb[2] > 63 || qb[3] > 63) { wantlast = true; break; } } }
		CHECK(last == wantlast, "dec-last", "text %s split %s: is_last %d expected %d", hex(noise).c_str(), sp.c_str(), last, wantlast); CHECK(out == want, "dec", "text %s split %s-> %s expected %s", hex(noise).c_str(), sp.c_str(), hexv(out).c_str(), hexv(want).c_str()); if (last) break; o += n; }
	if (chance(1,4)) { d.clear(); std::vector<uint8_t> o2; bool l; d.decode(o2, l, "QUJD", 4); CHECK(o2.size() == 3 && !memcmp(o2.data(), "ABC", 3), "clear", "clear() keeps pending characters"); } }
int main() { init(); while (more()) for (int i = 0; i < 200; i++) { enc<char>(); enc<wchar_t>(); dec<char>(); dec<wchar_t>(); } return finish(); }
