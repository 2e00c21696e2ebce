#include "vt.hpp"
#include <stdex/interval.hpp>
template<class T> struct W { typedef stdex::interval<T> I; };
#define ALL(n, T) typedef stdex::interval<T> I_##n; SIZEOF(n, I_##n) FIELD(s_##n, I_##n, start) FIELD(e_##n, I_##n, end) extern "C" { \
 void h_##n##_ctor0(I_##n *r) { new (r) I_##n(); } void h_##n##_ctor1(I_##n *r, T x) { new (r) I_##n(x); } void h_##n##_ctor2(I_##n *r, T x, T y) { new (r) I_##n(x, y); } \
 T h_##n##_size(const I_##n &a) { return a.size(); } bool h_##n##_empty(const I_##n &a) { return a.empty(); } bool h_##n##_valid(const I_##n &a) { return a.operator bool(); } bool h_##n##_contains(const I_##n &a, T x) { return a.contains(x); } \
 void h_##n##_inval(I_##n &a) { a.invalidate(); } \
 void h_##n##_addi(I_##n &r, const I_##n &a, const I_##n &b) { r = a + b; } void h_##n##_subi(I_##n &r, const I_##n &a, const I_##n &b) { r = a - b; } \
 void h_##n##_addx(I_##n &r, const I_##n &a, T x) { r = a.operator+(x); } void h_##n##_subx(I_##n &r, const I_##n &a, T x) { r = a.operator-(x); } \
 void h_##n##_addas(I_##n &r, I_##n &a, T x) { r = (a += x); } void h_##n##_subas(I_##n &r, I_##n &a, T x) { r = (a -= x); } \
 void h_##n##_preinc(I_##n &r, I_##n &a) { r = ++a; } void h_##n##_predec(I_##n &r, I_##n &a) { r = --a; } void h_##n##_postinc(I_##n &r, I_##n &a) { r = a++; } void h_##n##_postdec(I_##n &r, I_##n &a) { r = a--; } \
 bool h_##n##_eq(const I_##n &a, const I_##n &b) { return a == b; } bool h_##n##_ne(const I_##n &a, const I_##n &b) { return a != b; } }
#include <new>
ALL(u64, uint64_t) ALL(s64, int64_t) ALL(s32, int32_t) ALL(u16, uint16_t)
