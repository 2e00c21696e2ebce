#include "vt.hpp"
#include <mutex>
#include <stdex/progress.hpp>
#define HOST(S, T) struct H##S : stdex::progress<T> { virtual void key_(); void set_text(const char *msg) override; void set_range(T start, T end) override; void set(T value) override; void show(bool show) override; bool cancel() override; }; void H##S::key_() {} \
struct LZ##S : stdex::lazy_progress<T> { using lazy_progress::lazy_progress; virtual void key_(); void do_set() override; }; void LZ##S::key_() {} \
typedef stdex::global_progress<T> G##S; typedef stdex::progress_switcher<T> W##S; typedef stdex::progress<T> P##S; typedef stdex::timeout_progress<T> O##S; \
SIZEOF(h_##S, H##S) SIZEOF(g_##S, G##S) SIZEOF(w_##S, W##S) SIZEOF(l_##S, LZ##S) SIZEOF(o_##S, O##S) \
FIELD(g_host_##S, G##S, m_host) FIELD(g_local_##S, G##S, m_local) FIELD(g_global_##S, G##S, m_global) FIELD(g_section_##S, G##S, m_section) \
FIELD(l_start_##S, LZ##S, m_start) FIELD(l_end_##S, LZ##S, m_end) FIELD(l_value_##S, LZ##S, m_value) FIELD(l_last_##S, LZ##S, m_last) FIELD(l_timeout_##S, LZ##S, m_timeout) FIELD(o_host_##S, O##S, m_host) \
extern "C" { \
P##S *h_mk_##S(H##S *h) { return new (h) H##S(); } \
P##S *h_gctor_##S(G##S *g, P##S *h) { return new (g) G##S(h); } \
P##S *h_wctor_##S(W##S *w, P##S *&h) { return new (w) W##S(h); } \
void h_wdtor_##S(W##S &w) { w.W##S::~W##S(); } \
P##S *h_lctor_##S(LZ##S *l, long long timeout) { return new (l) LZ##S(std::chrono::nanoseconds(timeout)); } \
P##S *h_octor_##S(O##S *o, P##S *h, long long timeout) { return new (o) O##S(std::chrono::nanoseconds(timeout), h); } \
void h_attach_##S(G##S &g, P##S *h) { g.attach(h); } \
P##S *h_detach_##S(G##S &g) { return g.detach(); } \
void h_grange_##S(G##S &g, T a, T b) { g.set_global_range(a, b); } \
void h_srange_##S(G##S &g, T a, T b) { g.set_section_range(a, b); } \
void h_range_##S(P##S &p, T a, T b) { p.set_range(a, b); } \
void h_set_##S(P##S &p, T v) { p.set(v); } \
void h_text_##S(P##S &p, const char *s) { p.set_text(s); } \
void h_show_##S(P##S &p, bool s) { p.show(s); } \
bool h_cancel_##S(P##S &p) { return p.cancel(); } }
HOST(z, size_t)
HOST(u, uint32_t)
HOST(i, int)
