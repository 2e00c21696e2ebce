#include "texts.hpp"
#include <stdex/uuid.hpp>
#include <wchar.h>
using namespace orc;
template<class T> int dg(T c) { return c >= '0' && c <= '9' ? (int)c - '0' : c >= 'A' && c <= 'F' ? (int)c - 55 : c >= 'a' && c <= 'f' ? (int)c - 87 : 99; }
template<class T> bool ref(const std::basic_string<T> &t, uint8_t *id) {
	size_t i = 0, E = t.size(); auto at = [&](size_t k) { return k < E ? t[k] : (T)0; }; auto sk = [&] { while (i < E && (at(i) == ' ' || (at(i) >= '\t' && at(i) <= '\r'))) i++; };
	uint64_t v[5]; const uint64_t mx[5] = { 0xffffffff, 0xffff, 0xffff, 0xffff, 0xffffffffffff };
	sk(); for (int g = 0; g < 5; g++) { if (at(i) != (g ? '-' : '{')) return false; i++; sk();
		bool neg = false, over = false; if (at(i) == '+') i++; else if (at(i) == '-') i++, neg = true; if (at(i) == '0' && (at(i + 1) == 'x' || at(i + 1) == 'X')) i += 2;
		uint64_t n = 0; for (; i < E && dg(at(i)) < 16; i++) { if (n >> 60) over = true; n = n * 16 + dg(at(i)); } if (over) n = neg ? 0 : ~0ull; else if (neg) n = 0 - n;
		if (n > mx[g]) return false; v[g] = n; sk(); }
	if (at(i) != '}') return false; i++; sk(); if (i < E) return false;
	uint32_t a = (uint32_t)v[0]; uint16_t b = (uint16_t)v[1], c = (uint16_t)v[2]; memcpy(id, &a, 4); memcpy(id + 4, &b, 2); memcpy(id + 6, &c, 2); id[8] = (uint8_t)(v[3] >> 8); id[9] = (uint8_t)v[3]; for (int k = 0; k < 6; k++) id[10 + k] = (uint8_t)(v[4] >> (40 - 8 * k)); return true; }
template<class T> void parse(const std::basic_string<T> &s, const char *key) {
	CASE(); buf<T> b(s, false); uint8_t w[16] = {}; alignas(8) uuid_t id; memset(id, 0xcd, 16); bool want = ref(cut(s), w), got = stdex::strtouuid((const T*)b, s.size(), id);
	if (want != got) fail(key, "text %s: %s", hexv(s).c_str(), got ? "accepted" : "rejected"); else if (got && memcmp(id, w, 16)) fail(key, "text %s: got %s expected %s", hexv(s).c_str(), hex(id, 16).c_str(), hex(w, 16).c_str()); }
template<class T> std::basic_string<T> wid(const char *s) { return std::basic_string<T>(s, s + strlen(s)); }
template<class T> void texts() {
	uuid_t id; auto v = bytes(16); char t[64]; snprintf(t, sizeof t, chance(1, 2) ? "{%02X%02X%02X%02X-%02X%02X-%02X%02X-%02X%02X-%02X%02X%02X%02X%02X%02X}" : "{%02x%02x%02x%02x-%02x%02x-%02x%02x-%02x%02x-%02x%02x%02x%02x%02x%02x}", v[3], v[2], v[1], v[0], v[5], v[4], v[7], v[6], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15]);
	auto s = wid<T>(t); for (size_t n = chance(1, 3) ? 1 + rnd(3) : 0; n--;) { size_t k = rnd(s.size() + 1); switch (rnd(6)) { case 0: s.insert(k, 1, (T)" \t\n"[rnd(3)]); break; case 1: if (k < s.size()) s.erase(k, 1); break; case 2: s.insert(k, 1, (T)"0123f-+{} xg"[rnd(12)]); break; case 3: if (k < s.size()) s[k] = (T)"-{} 0G\0z"[rnd(8)]; break; case 4: s.resize(k); break; default: { size_t d = s.find((T)"-{}"[rnd(3)]); if (d != s.npos) s.insert(d + rnd(2), 1, (T)' '); } } }
	if (chance(1, 6)) for (size_t k = 0; k < s.size(); k++) if (s[k] == '-' && chance(1, 4)) s[k] = (T)" }_0a"[rnd(5)];
	parse(s, "strtouuid"); (void)id; }
template<class T> void rt(void (*f)(T*, const uuid_t&)) {
	CASE(); auto v = bytes(16); alignas(8) uuid_t id, o; memcpy(id, v.data(), 16); char t[64]; snprintf(t, sizeof t, "{%02X%02X%02X%02X-%02X%02X-%02X%02X-%02X%02X-%02X%02X%02X%02X%02X%02X}", v[3], v[2], v[1], v[0], v[5], v[4], v[7], v[6], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15]);
	std::unique_ptr<T[]> b(new T[39]); for (int i = 0; i < 39; i++) b[i] = 'q'; f(b.get(), id); auto w = wid<T>(t); if (memcmp(b.get(), w.c_str(), 39 * sizeof(T))) { fail("uuidtostr", "id %s: %zu-byte units text %s expected %s", hex(id, 16).c_str(), sizeof(T), hex(b.get(), 39 * sizeof(T)).c_str(), t); return; }
	if (!stdex::strtouuid(b.get(), 39, o) || memcmp(o, id, 16)) fail("roundtrip", "id %s", hex(id, 16).c_str()); }
int main() { init(); while (more()) { texts<char>(); texts<wchar_t>(); texts<char16_t>(); rt<char>(stdex::uuidtostr); rt<wchar_t>(stdex::uuidtostr); } return finish(); }
