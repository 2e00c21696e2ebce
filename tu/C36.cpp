#include "vt.hpp"
#include <list>
#include <map>
#include <memory>
#include <numa.h>
#include <stdex/spinlock.hpp>
#include <stdex/pool.hpp>
typedef stdex::pool<uint64_t> Q; typedef Q::numaentry_t E; typedef stdex::spinlock SL;
FIELD(mutex, Q, m_mutex)
FIELD(map, Q, m_available)
FIELD(lock, E, lock)
FIELD(list, E, list)
FIELD(sl, SL, m_lock)
SIZEOF(q, Q)
SIZEOF(e, E)
SIZEOF(sl, SL)
extern "C" {
uint64_t h_pop(Q &q, int numa) { return q.pop(numa); }
uint64_t h_popd(Q &q) { return q.pop(); }
void h_push(Q &q, uint64_t &v, int numa) { q.push(std::move(v), numa); }
void h_pushd(Q &q, uint64_t &v) { q.push(std::move(v)); }
void h_clear(Q &q) { q.clear(); }
void h_sctor(SL *s) { new (s) SL(); }
void h_slock(SL &s) { s.lock(); }
bool h_stry(SL &s) { return s.try_lock(); }
void h_sunlock(SL &s) { s.unlock(); }
}
