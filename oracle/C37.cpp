#include "oracle.hpp"
#include <memory>
#include <stdex/memory.hpp>
#include <stdex/scoped_executor.hpp>
using namespace orc;
static std::vector<int> g_log; static std::vector<int> g_del;
struct X { int v; }; struct Del { void operator()(X *p) const { g_del.push_back(p->v); } };
struct F { int n; void operator()() { g_log.push_back(n); } };
static X g_x[64];
template<class T> static void ref(const char *what) {
	typedef std::unique_ptr<T, Del> O; typedef stdex::ref_unique_ptr<T, Del> R;
	CASE(); g_del.clear(); for (int i = 0; i < 64; i++) g_x[i].v = i;
	int next = 1; bool held = chance(1, 2); std::string tr; std::vector<int> del;
	{ O o(held ? &g_x[next] : nullptr); int cur = held ? next++ : 0; tr += held ? "owner holds 1" : "owner empty";
	{
		std::unique_ptr<R> h[3]; h[0].reset(new R(stdex::get_ptr(o))); int at = 0; bool moved = false;
		CHECK(!o.get(), "take", "%s: %s: owner still holds a pointer", what, tr.c_str());
		for (int k = (int)rnd(6); k-- > 0;) switch (rnd(3)) {
			case 0: *static_cast<X**>(*h[at]) = &g_x[next]; cur = next++; tr += "; stored " + std::to_string(cur); break;
			case 1: static_cast<X*&>(*h[at]) = nullptr; cur = 0; tr += "; stored null"; break;
			case 2: if (at < 2 && !moved) { h[at + 1].reset(new R(std::move(*h[at]))); at++; tr += "; moved"; CHECK(*static_cast<X**>(*h[at]) == (cur ? &g_x[cur] : nullptr), "move", "%s: %s: the new helper does not hold the pointer", what, tr.c_str()); } break;
		}
		int order = (int)rnd(2); tr += order ? "; destroyed last first" : "; destroyed first first";
		for (int i = 0; i < 3; i++) { int j = order ? 2 - i : i; h[j].reset(); if (j == at) CHECK(o.get() == (cur ? &g_x[cur] : nullptr), "return", "%s: %s: the owner holds %p, expected %p", what, tr.c_str(), (void*)o.get(), (void*)(cur ? &g_x[cur] : nullptr)); }
		CHECK(o.get() == (cur ? &g_x[cur] : nullptr), "return", "%s: %s: the owner holds %p, expected %p", what, tr.c_str(), (void*)o.get(), (void*)(cur ? &g_x[cur] : nullptr));
		CHECK(g_del.empty(), "deleted", "%s: %s: %d deleted while returning", what, tr.c_str(), g_del.empty() ? 0 : g_del[0]);
	}
	o.release(); }
}
int main() {
	init();
	do {
		ref<X>("single"); ref<X[]>("array");
		CASE(); int a = (int)rnd(100), b = 100 + (int)rnd(100), c = 200; F f{a}, d{b}; std::vector<int> want{a, c, b};
		g_log.clear(); { stdex::scoped_executor<F&, F&> s(f, d); g_log.push_back(c); } CHECK(g_log == want, "scope", "lvalue actions: %zu calls", g_log.size());
		g_log.clear(); { stdex::scoped_executor s([&] { g_log.push_back(a); }, [&] { g_log.push_back(b); }); g_log.push_back(c); } CHECK(g_log == want, "scope", "lambda actions: %zu calls", g_log.size());
		g_log.clear(); try { stdex::scoped_executor<F&, F&> s(f, d); g_log.push_back(c); throw 1; } catch (int) {} CHECK(g_log == want, "scope", "left by an exception: %zu calls", g_log.size());
		g_log.clear(); { F f1{a}, d1{b}; stdex::scoped_executor<F, F> s(std::move(f1), std::move(d1)); d1.n = b; g_log.push_back(c); } CHECK(g_log == want, "scope", "rvalue actions: %zu calls", g_log.size());
	} while (more());
	return finish();
}
