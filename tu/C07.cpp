#include "vt.hpp"
#include <stdex/vector_queue.hpp>
typedef stdex::vector_queue<uint64_t> Q;
FIELD(data, Q, m_data)
FIELD(head, Q, m_head)
FIELD(count, Q, m_count)
FIELD(cap, Q, m_size_max)
SIZEOF(q, Q)
extern "C" {
void h_ctor(Q *q, size_t n) { new (q) Q(n); }
void h_dtor(Q *q) { q->Q::~Q(); }
void h_copy(Q *q, const Q &o) { new (q) Q(o); }
void h_move(Q *q, Q &o) { new (q) Q(static_cast<Q&&>(o)); }
void h_cassign(Q &q, const Q &o) { q = o; }
void h_massign(Q &q, Q &o) { q = static_cast<Q&&>(o); }
size_t h_size(const Q &q) { return q.size(); }
size_t h_capacity(const Q &q) { return q.capacity(); }
bool h_empty(const Q &q) { return q.empty(); }
void h_clear(Q &q) { q.clear(); }
uint64_t h_at(Q &q, size_t i) { return q.at(i); }
uint64_t h_atc(const Q &q, size_t i) { return q.at(i); }
uint64_t h_ix(Q &q, size_t i) { return q[i]; }
uint64_t h_ixc(const Q &q, size_t i) { return q[i]; }
uint64_t h_atabs(Q &q, size_t i) { return q.at_abs(i); }
uint64_t h_atabsc(const Q &q, size_t i) { return q.at_abs(i); }
size_t h_pushb(Q &q, const uint64_t &v) { return q.push_back(v); }
size_t h_pushbm(Q &q, uint64_t &v) { return q.push_back(static_cast<uint64_t&&>(v)); }
size_t h_pushf(Q &q, const uint64_t &v) { return q.push_front(v); }
size_t h_pushfm(Q &q, uint64_t &v) { return q.push_front(static_cast<uint64_t&&>(v)); }
void h_popb(Q &q) { q.pop_back(); }
void h_popf(Q &q) { q.pop_front(); }
uint64_t h_front(Q &q) { return q.front(); }
uint64_t h_frontc(const Q &q) { return q.front(); }
uint64_t h_back(Q &q) { return q.back(); }
uint64_t h_backc(const Q &q) { return q.back(); }
size_t h_head(const Q &q) { return q.head(); }
size_t h_tail(const Q &q) { return q.tail(); }
}
