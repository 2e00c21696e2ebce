#include "vt.hpp"
#include <memory>
#include <stdex/memory.hpp>
#include <stdex/scoped_executor.hpp>
struct X { int v; };
struct Del { Del() {} void operator()(X *p) const; };
template<class T> struct U { typedef std::unique_ptr<T, Del> O; typedef stdex::ref_unique_ptr<T, Del> R; };
#define REF(S, T) SIZEOF(r_##S, U<T>::R) SIZEOF(o_##S, U<T>::O) extern "C" { \
void h_own_##S(U<T>::O *o, X *p) { new (o) U<T>::O(p); } \
X *h_held_##S(U<T>::O &o) { return o.get(); } \
void h_get_##S(U<T>::R *r, U<T>::O &o) { new (r) U<T>::R(stdex::get_ptr(o)); } \
void h_ctor_##S(U<T>::R *r, U<T>::O &o) { new (r) U<T>::R(o); } \
void h_move_##S(U<T>::R *r, U<T>::R &f) { new (r) U<T>::R(std::move(f)); } \
X *h_ptr_##S(U<T>::R &r) { return *static_cast<X**>(r); } \
X *h_ref_##S(U<T>::R &r) { X *&p = r; return p; } \
void h_setp_##S(U<T>::R &r, X *p) { *static_cast<X**>(r) = p; } \
void h_setr_##S(U<T>::R &r, X *p) { static_cast<X*&>(r) = p; } \
void h_dtor_##S(U<T>::R &r) { r.U<T>::R::~R(); } }
REF(one, X)
REF(arr, X[])
struct Fi { void operator()(); }; struct Fd { void operator()(); };
void fi(); void fd();
void between();
extern "C" {
void h_scope_l(Fi &i, Fd &d) { stdex::scoped_executor<Fi&, Fd&> s(i, d); between(); }
void h_scope_r(Fi &i, Fd &d) { stdex::scoped_executor<Fi, Fd> s(std::move(i), std::move(d)); between(); }
void h_scope_f() { stdex::scoped_executor<void(&)(), void(&)()> s(fi, fd); between(); }
void h_scope_d(Fi &i, Fd &d) { stdex::scoped_executor s([&]{ i(); }, [&]{ d(); }); between(); }
}
