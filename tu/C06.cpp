#include "vt.hpp"
#include <stdex/ring.hpp>
template<class T, size_t N> struct W { typedef stdex::ring<T, N> R; };
#define RING(T, N) typedef stdex::ring<T, N> R##N; FIELD(m##N, R##N, m_mutex) FIELD(hm##N, R##N, m_head_moved) FIELD(tm##N, R##N, m_tail_moved) FIELD(head##N, R##N, m_head) FIELD(size##N, R##N, m_size) FIELD(quit##N, R##N, m_quit) FIELD(data##N, R##N, m_data) SIZEOF(r##N, R##N) \
	extern "C" void h_ctor##N(R##N *p) { new (p) R##N(); } \
	extern "C" size_t h_back##N(R##N &r, T **p) { auto t = r.back(); *p = std::get<0>(t); return std::get<1>(t); } \
	extern "C" size_t h_front##N(R##N &r, T **p) { auto t = r.front(); *p = std::get<0>(t); return std::get<1>(t); } \
	extern "C" void h_push##N(R##N &r, size_t n) { r.push(n); } \
	extern "C" void h_pop##N(R##N &r, size_t n) { r.pop(n); } \
	extern "C" void h_quit##N(R##N &r) { r.quit(); } \
	extern "C" void h_sync##N(R##N &r) { r.sync(); }
RING(uint8_t, 1)
RING(uint32_t, 2)
RING(uint64_t, 7)
RING(uint32_t, 8)
RING(uint8_t, 50)
RING(uint8_t, 4096)
