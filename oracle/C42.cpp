#include "oracle.hpp"
#include <string>
#include <vector>
#include <stdex/langid.hpp>
#include <set>
using namespace orc;
static char variant(char c) {
    if (c == '-') { static const char p[] = "-_.!@[`~/"; return p[rnd(sizeof(p) - 1)]; }
    if (rnd() & 1) { if (c >= 'a' && c <= 'z') return c - 32; if (c >= 'A' && c <= 'Z') return c + 32; }
    return c;
}
static std::string fold(std::string s) { for (auto &c : s) c = c >= 'A' && c <= 'Z' ? c + 32 : isalnum((unsigned char)c) || (c & 0x80) ? c : '-'; return s; }
static std::set<std::string> tags; static std::vector<stdex::langid> ids;
static void check() {
	CASE(); auto id = ids[rnd(ids.size())]; std::string tag = stdex::rfc1766_from_langid(id), v = tag; for (auto &c : v) c = variant(c);
	auto back = stdex::langid_from_rfc1766(v.c_str()); const char *t2 = stdex::rfc1766_from_langid(back, "");
	CHECK(fold(t2) == fold(tag), "roundtrip", "id %x has tag %s; %s resolves to %x with tag %s", id, tag.c_str(), v.c_str(), back, t2);
	v = tag; size_t n = rnd(3); for (size_t i = 0; i < n; ++i) switch (rnd(3)) { case 0: v.insert(rnd(v.size() + 1), 1, "aZ-9\xe1"[rnd(5)]); break; case 1: if (!v.empty()) v.erase(rnd(v.size()), 1); break; default: if (!v.empty()) v[rnd(v.size())] = "bQ_0\x80"[rnd(5)]; }
	back = stdex::langid_from_rfc1766(v.c_str());
	CHECK((back != stdex::langid_unknown) == (tags.count(fold(v)) != 0), "known", "%s resolves to %x", v.c_str(), back);
	if (back != stdex::langid_unknown) CHECK(fold(stdex::rfc1766_from_langid(back, "")) == fold(v), "tag", "%s resolves to %x", v.c_str(), back);
	unsigned u = rnd() & 0xffff; char fb[2]; const char *r = stdex::rfc1766_from_langid((stdex::langid)u, fb); CHECK((r == fb) == (stdex::rfc1766_from_langid((stdex::langid)u) == nullptr), "fallback", "fallback for %x", u);
}
static void all() { for (unsigned id = 0; id < 0x10000; ++id) if (const char *t = stdex::rfc1766_from_langid((stdex::langid)id)) { tags.insert(fold(t)); ids.push_back((stdex::langid)id); std::string v = t; for (auto &c : v) if (c == '-') c = '_'; else c = (char)toupper(c); auto b = stdex::langid_from_rfc1766(v.c_str()); CHECK(fold(stdex::rfc1766_from_langid(b, "")) == fold(t), "entry", "id %x has tag %s; %s resolves to %x", id, t, v.c_str(), b); } }
int main() { init(); all(); if (ids.empty()) { fail("empty", "no identifier has a tag"); return finish(); } while (more()) for (int i = 0; i < 100; i++) check(); return finish(); }
