//@std 17
//@std+ 14 20 2b
//@cover all:done
#define VSA_MAIN
#include "kit.h"
#include <boost/variant/multivisitors.hpp>
// what visiting several variants returns, through every overload, for visitors with and without result_type
typedef Kit<X<0>, N<1> > K; typedef K::V V;
struct Slots { int a[4]; };
template <class T> struct bit; template <> struct bit<X<0> > { enum { v = 0 }; }; template <> struct bit<N<1> > { enum { v = 1 }; };
struct Bare { int* s; template <class A, class B> int& operator()(A&, B&) const { return s[bit<typename std::decay<A>::type>::v * 2 + bit<typename std::decay<B>::type>::v]; }
  template <class A, class B, class C> int& operator()(A&, B&, C&) const { return s[bit<typename std::decay<A>::type>::v * 4 + bit<typename std::decay<B>::type>::v * 2 + bit<typename std::decay<C>::type>::v]; }
  template <class A, class B, class C, class D> int& operator()(A&, B&, C&, D&) const { return s[bit<typename std::decay<A>::type>::v * 8 + bit<typename std::decay<B>::type>::v * 4 + bit<typename std::decay<C>::type>::v * 2 + bit<typename std::decay<D>::type>::v]; } };
struct Decl : Bare { typedef int& result_type; };
#define REF(x) { static_assert(std::is_same<decltype(x), int&>::value, "a reference result"); CHECKM(&(x) == e, "a reference result is returned as that reference"); break; }
template <class Vis> void refs() {
  V0(K, a); K::any_type(a); V0(K, b); K::any_type(b); V0(K, c); K::any_type(c); const V& ca = a; const V& cb = b; const V& cc = c; int s[16] = { 0 }; Vis f; f.s = s; const Vis cf = f;
  int e2 = a.which() * 2 + b.which(), e3 = e2 * 2 + c.which(), e4 = e3 * 2 + a.which();
  int how = vsa_choose(13); int* e = how < 4 ? s + e2 : how < 9 ? s + e3 : s + e4;
  switch (how) {
    case 0: REF(boost::apply_visitor(f, a, b)) case 1: REF(boost::apply_visitor(cf, ca, b)) case 2: REF(boost::apply_visitor(f)(a, b)) case 3: REF(boost::apply_visitor(cf, a, cb))
    case 4: REF(boost::apply_visitor(f, a, b, c)) case 5: REF(boost::apply_visitor(cf, ca, b, cc)) case 6: REF(boost::apply_visitor(f)(a, b, c)) case 7: REF(boost::apply_visitor(cf, a, b, c)) case 8: REF(boost::apply_visitor(f)(ca, cb, cc))
    case 9: REF(boost::apply_visitor(f, a, b, c, a)) case 10: REF(boost::apply_visitor(cf, ca, b, cc, a)) case 11: REF(boost::apply_visitor(f)(a, b, c, a)) case 12: REF(boost::apply_visitor(cf, a, b, c, ca))
  }
  vsa_cover("done"); }
extern "C" void drv_refs_bare() { refs<Bare>(); } extern "C" void drv_refs_declared() { refs<Decl>(); }
// overloads with different result types: a value of their common type
static const long BIG = 1L << 40;
struct Mix { short operator()(const X<0>&, const X<0>&) const { return 1; } long operator()(const X<0>&, const N<1>&) const { return BIG; } int operator()(const N<1>&, const X<0>&) const { return 3; } short operator()(const N<1>&, const N<1>&) const { return 4; } };
struct Mix2 { short operator()(const X<0>&, const X<0>&) const { return 1; } int operator()(const X<0>&, const N<1>&) const { return 2; } long operator()(const N<1>&, const X<0>&) const { return BIG; } short operator()(const N<1>&, const N<1>&) const { return 4; } };
template <class F> void common(long e1, long e2) { V0(K, a); K::any_state(a); V0(K, b); K::any_state(b); F f; const F cf = F(); const V& ca = a; const V& cb = b; int k = a.which() * 2 + b.which(); long e = k == 0 ? 1 : k == 1 ? e1 : k == 2 ? e2 : 4;
  static_assert(std::is_same<decltype(boost::apply_visitor(f, a, b)), long>::value && std::is_same<decltype(boost::apply_visitor(cf, ca, cb)), long>::value && std::is_same<decltype(boost::apply_visitor(f)(a, b)), long>::value, "the common type");
  switch (vsa_choose(4)) { case 0: CHECKM(boost::apply_visitor(f, a, b) == e, "the visitor's result as a value of the common type"); break; case 1: CHECKM(boost::apply_visitor(cf, ca, cb) == e, "the visitor's result as a value of the common type"); break; case 2: CHECKM(boost::apply_visitor(f)(a, b) == e, "the visitor's result as a value of the common type"); break; case 3: CHECKM(boost::apply_visitor(f, std::move(a), cb) == e, "the visitor's result as a value of the common type"); break; }
  vsa_cover("done"); }
extern "C" void drv_common() { common<Mix>(BIG, 3); } extern "C" void drv_common2() { common<Mix2>(2, BIG); }
struct Mix3 { short operator()(const X<0>&, const X<0>&, const X<0>&) const { return 1; } int operator()(const X<0>&, const N<1>&, const X<0>&) const { return 2; } long operator()(const N<1>&, const X<0>&, const X<0>&) const { return BIG; } template <class A, class B> short operator()(const A&, const B&, const N<1>&) const { return 4; } int operator()(const N<1>&, const N<1>&, const X<0>&) const { return 5; } };
extern "C" void drv_common3() { V0_(K, a); K::any_type(a); V0_(K, b); K::any_type(b); V0_(K, c); K::any_type(c); Mix3 f; const Mix3 cf = Mix3(); const V& ca = a; int k = a.which() * 2 + b.which(); long e = c.which() ? 4 : k == 0 ? 1 : k == 1 ? 2 : k == 2 ? BIG : 5;
  static_assert(std::is_same<decltype(boost::apply_visitor(f, a, b, c)), long>::value && std::is_same<decltype(boost::apply_visitor(cf, ca, b, c)), long>::value && std::is_same<decltype(boost::apply_visitor(f)(a, b, c)), long>::value, "the common type");
  switch (vsa_choose(3)) { case 0: CHECKM(boost::apply_visitor(f, a, b, c) == e, "the visitor's result as a value of the common type"); break; case 1: CHECKM(boost::apply_visitor(cf, ca, b, c) == e, "the visitor's result as a value of the common type"); break; case 2: CHECKM(boost::apply_visitor(f)(a, b, c) == e, "the visitor's result as a value of the common type"); break; }
  vsa_cover("done"); }
