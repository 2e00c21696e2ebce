#include "vt.hpp"
#include <stdex/memory.hpp>
#include <stdex/string.hpp>
#include <vector>
struct S24 { uint64_t a, b, c; };
template<class T> using A = stdex::sanitizing_allocator<T>;
extern "C" {
#define ONE(N, T) void h_dealloc_##N(T *p, size_t n) { A<T> a; a.deallocate(p, n); }
ONE(u8, unsigned char)
ONE(w, wchar_t)
ONE(u64, uint64_t)
ONE(s24, S24)
void use(void *p);
#define BLOB(N) void h_blob_##N() { stdex::sanitizing_blob<N> b; use(b.m_data); } void h_dblob_##N(stdex::sanitizing_blob<N> *b) { delete b; }
BLOB(1)
BLOB(16)
BLOB(33)
BLOB(4096)
// a standard container over the allocator gives back what it obtained
void h_vec(size_t n) { std::vector<unsigned char, A<unsigned char>> v(n); use(v.data()); }
void h_alloc(unsigned char **p, size_t n) { A<unsigned char> a; *p = a.allocate(n); }
}
