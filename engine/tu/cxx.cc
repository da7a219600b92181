// every operation of the C++ classes, as a function of its own
#include <iostream>
#include <string>
#include <stdexcept>
struct Thrower {};
extern "C" void cxx_thrown() __attribute__((noreturn));
Thrower cxx_throw();
template <class T> [[noreturn]] inline void operator<<(Thrower, const T &) { cxx_thrown(); }
#define throw cxx_throw() <<
#define try if (1)
#include <pbc/pbcxx.h>
using namespace pbc;
typedef ZrElement Zr; typedef G1Element G1; typedef G2Element G2; typedef GTElement GT;
extern "C" void sink(const void *);
template <bool> struct Copy { template <class P> static void make(P &) {} template <class P> static void assign(P &, P &) {} };
template <> struct Copy<true> {
  template <class P> static void make(P &p) { P q(p); sink(&q); }
  template <class P> static void assign(P &p, P &q) { p = q; }
};
extern "C" {
void sink(const void *);
void sinkref(const void *);
#define ALL(C) \
  void C##_new(Pairing &p) { C r(p); sink(&r); } \
  void C##_copy(C &a) { C r(a); sink(&r); } \
  void C##_assign(C &a, C &b) { sinkref(&(a = b)); } \
  void C##_selfassign(C &a) { sinkref(&(a = a)); } \
  int C##_compare(C &a, C &b) { return a.compare(b); } \
  int C##_eq(C &a, C &b) { return a == b; } \
  int C##_ne(C &a, C &b) { return a != b; } \
  int C##_is0(C &a) { return a.is0(); } \
  int C##_is1(C &a) { return a.is1(); } \
  void C##_set0(C &a) { sinkref(&a.set0()); } \
  void C##_set1(C &a) { sinkref(&a.set1()); } \
  void C##_set_random(C &a) { sinkref(&a.set_random()); } \
  void C##_from_hash(C &a, std::string &s) { sinkref(&a.from_hash(s)); } \
  void C##_add(C &a, C &b) { sink(&static_cast<const C &>(a + b)); } \
  void C##_sub(C &a, C &b) { sink(&static_cast<const C &>(a - b)); } \
  void C##_mul(C &a, C &b) { sink(&static_cast<const C &>(a * b)); } \
  void C##_div(C &a, C &b) { sink(&static_cast<const C &>(a / b)); } \
  void C##_addeq(C &a, C &b) { sinkref(&(a += b)); } \
  void C##_subeq(C &a, C &b) { sinkref(&(a -= b)); } \
  void C##_muleq(C &a, C &b) { sinkref(&(a *= b)); } \
  void C##_diveq(C &a, C &b) { sinkref(&(a /= b)); } \
  void C##_twice(C &a) { sink(&static_cast<const C &>(a.twice())); } \
  void C##_twice_inplace(C &a) { sinkref(&a.twice_inplace()); } \
  void C##_square(C &a) { sink(&static_cast<const C &>(a.square())); } \
  void C##_square_inplace(C &a) { sinkref(&a.square_inplace()); } \
  void C##_neg(C &a) { sink(&static_cast<const C &>(a.neg())); } \
  void C##_neg_inplace(C &a) { sinkref(&a.neg_inplace()); } \
  void C##_invert(C &a) { sink(&static_cast<const C &>(a.invert())); } \
  void C##_invert_inplace(C &a) { sinkref(&a.invert_inplace()); } \
  void C##_to_bytes(C &a) { std::string s = a.to_bytes(); sink(&s); } \
  void C##_from_bytes(C &a, std::string &s) { sinkref(&a.from_bytes(s)); }
#define GROUP(C) \
  void C##_pow_zn(C &a, Zr &z) { sink(&static_cast<const C &>(a.pow_zn(z))); } \
  void C##_pow_zn_inplace(C &a, Zr &z) { sinkref(&a.pow_zn_inplace(z)); } \
  void C##_mulzeq(C &a, Zr &z) { sinkref(&(a *= z)); } \
  void C##_mulz(C &a, Zr &z) { sink(&static_cast<const C &>(a * z)); } \
  void C##_zmul(C &a, Zr &z) { sink(&static_cast<const C &>(z * a)); }
ALL(Zr) ALL(G1) ALL(G2) ALL(GT)
GROUP(G1) GROUP(G2) GROUP(GT)
void Zr_set_si(Zr &a, long i) { sinkref(&a.set_si(i)); }
void Zr_set_mpz(Zr &a, mpz_ptr z) { sinkref(&a.set_mpz(z)); }
void P_new(std::string &s) { Pairing p(s); sink(&p); }
void P_copy(Pairing &p) { Copy<__is_constructible(Pairing, const Pairing &)>::make(p); }
void P_assign(Pairing &p, Pairing &q) { Copy<__is_assignable(Pairing &, const Pairing &)>::assign(p, q); }
int P_symmetric(Pairing &p) { return p.is_symmetric(); }
void P_apply12(Pairing &p, GT &r, G1 &a, G2 &b) { p.apply(r, a, b); sinkref(&r); }
void P_apply11(Pairing &p, GT &r, G1 &a, G1 &b) { p.apply(r, a, b); sinkref(&r); }
void P_apply22(Pairing &p, GT &r, G2 &a, G2 &b) { p.apply(r, a, b); sinkref(&r); }
void P_call12(Pairing &p, G1 &a, G2 &b) { sink(&static_cast<const GT &>(p(a, b))); }
void P_call11(Pairing &p, G1 &a, G1 &b) { sink(&static_cast<const GT &>(p(a, b))); }
void P_call22(Pairing &p, G2 &a, G2 &b) { sink(&static_cast<const GT &>(p(a, b))); }
}
