#include "vt.hpp"
#include <stdex/mapping.hpp>
typedef stdex::mapping<size_t> M; typedef std::vector<M> MV;
SIZEOF(m, M) FIELD(from, M, from) FIELD(to, M, to)
extern "C" {
size_t h_d2s(const MV &v, size_t x) { return stdex::dst2src<size_t>(v, x); }
size_t h_s2d(const MV &v, size_t x) { return stdex::src2dst<size_t>(v, x); }
size_t h_d2s_hint(const MV &v, size_t x, size_t &m) { return stdex::dst2src<size_t>(v, x, m); }
size_t h_s2d_hint(const MV &v, size_t x, size_t &m) { return stdex::src2dst<size_t>(v, x, m); }
}
