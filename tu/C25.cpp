#include "vt.hpp"
#include <stdex/stream.hpp>
typedef stdex::stream::fifo F;
FIELD(f_state, F, m_state)
FIELD(f_offset, F, m_offset)
FIELD(f_size, F, m_size)
FIELD(f_head, F, m_head)
FIELD(f_tail, F, m_tail)
SIZEOF(f, F)
FIELD(n_next, F::node_t, next)
FIELD(n_size, F::node_t, size)
FIELD(n_data, F::node_t, data)
extern "C" {
void h_f_ctor(F *f) { new (f) F(); }
void h_f_dtor(F &f) { f.F::~F(); }
size_t h_f_read(F &f, void *d, size_t n) { return f.F::read(d, n); }
size_t h_f_write(F &f, const void *d, size_t n) { return f.F::write(d, n); }
void h_f_close(F &f) { f.F::close(); }
size_t h_f_size(F &f) { return f.size(); }
}
