#include "oracle.hpp"
#include <list>
#include <map>
#include <set>
#include <memory>
#include <thread>
#include <atomic>
#include <mutex>
#include <numa.h>
#include <sched.h>
#include <stdex/spinlock.hpp>
#include <stdex/pool.hpp>
using namespace orc;
typedef stdex::pool<std::unique_ptr<int>> Q;
static void seq() {
	CASE(); Q q; std::map<int, std::multiset<int>> m; std::string tr; char t[40]; int next = 1, dn = numa_node_of_cpu(sched_getcpu());
	for (int k = 0; k < 60; k++) { int n = (int)rnd(3), op = (int)rnd(chance(1, 20) ? 6 : 5); if (op < 2) { q.push(std::unique_ptr<int>(new int(next)), n); m[n].insert(next); sprintf(t, "push(%d,%d) ", next++, n); }
		else if (op < 4) { auto r = q.pop(n); sprintf(t, "pop(%d)->%d ", n, r ? *r : 0); tr += t; t[0] = 0; CHECK(!r == m[n].empty(), "empty", "%s: %s while %zu items stored", tr.c_str(), r ? "an item" : "the default item", m[n].size()); if (r) { CHECK(m[n].count(*r), "item", "%s: not stored in sub-pool %d", tr.c_str(), n); auto i = m[n].find(*r); if (i != m[n].end()) m[n].erase(i); } }
		else if (op == 4) { if (chance(1, 6)) { q.clear(); m.clear(); sprintf(t, "clear "); } else t[0] = 0; }
		else { int node = -1; { auto p = std::unique_ptr<int>(new int(next)); q.push(std::move(p)); } auto r = q.pop(); (void)node; (void)dn; if (numa_max_node() <= 0) { CHECK(r && (m[0].count(*r) || *r == next), "default", "%s: push and pop without a sub-pool: %s", tr.c_str(), r ? "foreign item" : "lost"); if (r && *r != next) { m[0].erase(m[0].find(*r)); m[0].insert(next); } } next++; sprintf(t, "push()pop() "); }
		tr += t; }
	for (auto &x : m) while (!x.second.empty()) { auto r = q.pop(x.first); CHECK(r && x.second.count(*r), "drain", "%s: draining %d", tr.c_str(), x.first); if (!r) break; auto i = x.second.find(*r); if (i == x.second.end()) break; x.second.erase(i); }
	for (int n = 0; n < 3; n++) CHECK(!q.pop(n), "drain", "%s: sub-pool %d holds an extra item", tr.c_str(), n);
}
static void par() {
	CASE(); Q q; const int T = 4, N = 300; std::vector<std::vector<int>> got(T); std::vector<std::thread> th; int nodes = 1 + (int)rnd(2);
	for (int t = 0; t < T; t++) th.emplace_back([&, t] { for (int k = 0; k < N; k++) { q.push(std::unique_ptr<int>(new int(t * N + k)), k % nodes); if (k & 1) { auto r = q.pop((k >> 1) % nodes); if (r) got[t].push_back(*r); } } });
	for (auto &t : th) t.join();
	std::vector<int> seen(T * N, 0); for (auto &g : got) for (int x : g) seen[x]++; for (int n = 0; n < nodes; n++) for (;;) { auto r = q.pop(n); if (!r) break; seen[*r]++; }
	for (int i = 0; i < T * N; i++) CHECK(seen[i] == 1, "once", "item %d handed out %d times with %d threads", i, seen[i], T);
}
static void spin() { CASE(); stdex::spinlock l; long n = 0; std::vector<std::thread> th; for (int t = 0; t < 3; t++) th.emplace_back([&, t] { for (int k = 0; k < 500; k++) { if (t == 2) { if (!l.try_lock()) continue; } else l.lock(); n = n + 1; l.unlock(); } }); for (auto &t : th) t.join(); CHECK(n >= 1000, "spinlock", "%ld", n); CHECK(l.try_lock() && !l.try_lock(), "trylock", "try_lock on a free and on a taken lock"); l.unlock(); CHECK(l.try_lock(), "unlock", "taken after unlock"); }
int main() { init(); do { for (int i = 0; i < 30; i++) seq(); par(); spin(); } while (more()); return finish(); }
