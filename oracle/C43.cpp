#include "oracle.hpp"
#include <mutex>
#include <stdex/progress.hpp>
using namespace orc;
template<class T> struct H : stdex::progress<T> {
	std::vector<T> v, r; std::vector<std::string> txt; std::vector<int> sh; bool c = false; int asked = 0;
	void set_text(const char *m) override { txt.push_back(m); } void set_range(T a, T b) override { r.push_back(a); r.push_back(b); } void set(T x) override { v.push_back(x); } void show(bool s) override { sh.push_back(s); } bool cancel() override { asked++; return c; }
};
template<class T> struct LZ : stdex::lazy_progress<T> { using stdex::lazy_progress<T>::lazy_progress; std::vector<T> v; void do_set() override { v.push_back(this->m_value); } };
template<class T> static void glob(const char *n) {
	CASE(); H<T> h; stdex::progress<T> *ind = &h; T ls = (T)rnd(1000), le = (T)(ls + rnd(2000)), ss = (T)rnd(1000), se = (T)(ss + rnd(5000)); if (chance(1, 4)) le = ls; bool sw = chance(1, 2);
	auto run = [&](stdex::global_progress<T> &g) {
		g.set_section_range(ss, se); g.set_range(ls, le); CHECK(h.v.empty() && h.r.empty(), "quiet", "%s: setting the ranges called the host", n);
		for (int k = 0; k < 20; k++) { T x = (T)(ls + rnd((uint64_t)(le - ls) + 1)); size_t before = h.v.size(); g.set(x); if (ls == le) { CHECK(h.v.size() == before, "empty", "%s: reported with an empty local range", n); continue; }
			T e = (T)((uint64_t)(x - ls) * (uint64_t)(se - ss) / (uint64_t)(le - ls) + (uint64_t)ss); CHECK(h.v.size() == before + 1 && h.v.back() == e && h.v.back() >= ss && h.v.back() <= se, "map", "%s: local [%lld,%lld] section [%lld,%lld] set(%lld): host got %lld expected %lld", n, (long long)ls, (long long)le, (long long)ss, (long long)se, (long long)x, h.v.empty() ? -1LL : (long long)h.v.back(), (long long)e); }
		g.set_text("abc"); g.show(false); g.show(true); CHECK(h.txt == std::vector<std::string>{"abc"} && h.sh == (std::vector<int>{0, 1}), "forward", "%s: text or visibility not forwarded", n); h.c = chance(1, 2); CHECK(g.cancel() == h.c && h.asked == 1, "cancel", "%s: cancel", n);
		g.set_global_range(5, 99); CHECK(h.r == (std::vector<T>{5, 99}), "global", "%s: global range not forwarded", n);
	};
	if (sw) { { stdex::progress_switcher<T> w(ind); CHECK(ind == &w, "switch", "%s: the switcher does not stand in", n); run(w); } CHECK(ind == &h, "restore", "%s: the indicator is not restored", n); H<T> h2; { stdex::progress_switcher<T> w(ind); w.attach(&h2); } CHECK(ind == &h2, "restore", "%s: the indicator attached meanwhile is not put in place", n); ind = &h;
		stdex::progress<T> *none = nullptr; { stdex::progress_switcher<T> w(none); w.set(1); w.set_text("x"); w.show(); CHECK(!w.cancel(), "cancel", "%s: cancel without a host", n); } CHECK(!none, "restore", "%s: no indicator", n); }
	else { stdex::global_progress<T> g(&h); run(g); CHECK(g.detach() == &h && g.detach() == nullptr, "detach", "%s: detach", n); size_t b = h.v.size(); g.set(ls); CHECK(h.v.size() == b, "detach", "%s: reported after detach", n); }
}
template<class T> static void lazy(const char *n) {
	CASE(); T a = (T)(1 + rnd(50)), b = (T)(a + 1 + rnd(50)); { LZ<T> l(std::chrono::hours(1)); l.set_range(a, b); std::vector<T> want; bool any = false;
	for (int k = 0; k < 30; k++) { T x = chance(1, 3) ? (chance(1, 2) ? a : b) : (T)(a + rnd((uint64_t)(b - a) + 1)); l.set(x); if (x == a || x == b) { want.push_back(x); any = true; } else if (!any) { want.push_back(x); any = true; } }
	CHECK(l.v == want, "lazy", "%s: [%lld,%lld] with an hour between reports: %zu reports, expected %zu", n, (long long)a, (long long)b, l.v.size(), want.size()); }
	{ LZ<T> l(std::chrono::nanoseconds(0)); l.set_range(a, b); std::vector<T> want; T last = (T)-1; for (int k = 0; k < 30; k++) { T x = (T)(a + rnd((uint64_t)(b - a) + 1)); if (x == a || x == b || x != last) want.push_back(x); last = x; l.set(x); } CHECK(l.v == want, "lazy", "%s: [%lld,%lld] without a pause: %zu reports, expected %zu", n, (long long)a, (long long)b, l.v.size(), want.size()); }
}
template<class T> static void tmo(const char *n) {
	CASE(); H<T> h; h.c = chance(1, 2); { stdex::timeout_progress<T> t(std::chrono::hours(1), &h); t.set((T)7); t.set_range((T)1, (T)9); t.set_text("q"); t.show(true); CHECK(h.v == std::vector<T>{7} && h.r == (std::vector<T>{1, 9}) && h.txt == std::vector<std::string>{"q"} && h.sh == std::vector<int>{1}, "timeout", "%s: timeout_progress does not forward", n); CHECK(t.cancel() == h.c, "timeout", "%s: cancel before the deadline", n); }
	{ stdex::timeout_progress<T> t(std::chrono::nanoseconds(-1000000), chance(1, 2) ? &h : nullptr); CHECK(t.cancel(), "timeout", "%s: cancel after the deadline", n); }
}
int main() { init(); do { glob<size_t>("size_t"); glob<uint32_t>("uint32_t"); glob<int>("int"); lazy<size_t>("size_t"); lazy<int>("int"); tmo<size_t>("size_t"); tmo<int>("int"); } while (more()); return finish(); }
