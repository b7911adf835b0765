//@std 17
//@std+ 14 20 2b
//@cover all:done
#define VSA_MAIN
#include "kit.h"
// what apply_visitor returns for a visitor without result_type whose overloads return different types: a value of their common type
typedef Kit<X<0>, N<1>, M<2> > K; typedef K::V V;
struct Bs { int b; }; struct Dv : Bs { int d; };
static const long W0 = 7, W1 = 1L << 40, W2 = -3;
struct Wide { int operator()(const X<0>&) const { return 7; } long operator()(const N<1>&) const { return W1; } short operator()(const M<2>&) const { return -3; } };
struct WideM { mutable int n; short operator()(X<0>&) { ++n; return 7; } long operator()(N<1>&) { ++n; return W1; } int operator()(M<2>&) { ++n; return -3; } };
struct Ptr { Dv* d; Bs* b; Dv* operator()(const X<0>&) const { return d; } Bs* operator()(const N<1>&) const { return b; } Dv* operator()(const M<2>&) const { return d; } };
struct Ref { int* i; const int* c; int& operator()(const X<0>&) const { return *i; } const int& operator()(const N<1>&) const { return *c; } int& operator()(const M<2>&) const { return *i; } };
static long want(int w) { return w == 0 ? W0 : w == 1 ? W1 : W2; }
extern "C" void drv_common_value() { V0_(K, v); K::any_state(v); const V& c = v; long e = want(v.which()); Wide f; const Wide cf = Wide(); WideM m = { 0 };
  static_assert(std::is_same<decltype(boost::apply_visitor(f, v)), long>::value, "the common type"); static_assert(std::is_same<decltype(boost::apply_visitor(cf, c)), long>::value, "the common type");
  static_assert(std::is_same<decltype(boost::apply_visitor(m, v)), long>::value, "the common type"); static_assert(std::is_same<decltype(boost::apply_visitor(Wide(), std::move(v))), long>::value, "the common type");
  switch (vsa_choose(7)) {
    case 0: { auto r = boost::apply_visitor(f, v); CHECKM(r == e, "the visitor's result as a value of the common type"); break; }
    case 1: { auto r = boost::apply_visitor(f, c); CHECKM(r == e, "the visitor's result as a value of the common type"); break; }
    case 2: { auto r = boost::apply_visitor(cf, v); CHECKM(r == e, "the visitor's result as a value of the common type"); break; }
    case 3: { auto r = boost::apply_visitor(Wide(), c); CHECKM(r == e, "the visitor's result as a value of the common type"); break; }
    case 4: { auto r = boost::apply_visitor(m, v); CHECKM(r == e && m.n == 1, "the visitor's result as a value of the common type"); break; }
    case 5: { auto r = boost::apply_visitor(f)(v); CHECKM(r == e, "the visitor's result as a value of the common type"); break; }
    case 6: { auto r = boost::apply_visitor(f, std::move(v)); CHECKM(r == e, "the visitor's result as a value of the common type"); break; }
  }
  vsa_cover("done"); }
extern "C" void drv_common_pointer() { V0_(K, v); K::any_state(v); Dv d; Bs b; Ptr p = { &d, &b }; Bs* e = v.which() == 1 ? &b : &d; const V& c = v;
  static_assert(std::is_same<decltype(boost::apply_visitor(p, v)), Bs*>::value, "the common type");
  Bs* r = vsa_choose(2) ? boost::apply_visitor(p, c) : boost::apply_visitor(p)(v); CHECKM(r == e, "the pointer the visitor returned"); vsa_cover("done"); }
extern "C" void drv_common_reference() { V0_(K, v); K::any_state(v); int i = 1; int k = 2; Ref f = { &i, &k }; const int* e = v.which() == 1 ? &k : &i; const V& c = v; const Ref cf = f;
  static_assert(std::is_same<decltype(boost::apply_visitor(f, v)), const int&>::value, "the common type"); static_assert(std::is_same<decltype(boost::apply_visitor(f)(v)), const int&>::value, "the common type");
  int n = vsa_choose(4); const int& r = n == 0 ? boost::apply_visitor(f, v) : n == 1 ? boost::apply_visitor(cf, c) : n == 2 ? boost::apply_visitor(f)(v) : boost::apply_visitor(f, std::move(v)); CHECKM(&r == e, "a reference result is returned as that reference"); vsa_cover("done"); }
// with result_type every overload's result is converted to it
struct RWide : boost::static_visitor<long> { int operator()(const X<0>&) const { return 7; } long operator()(const N<1>&) const { return W1; } short operator()(const M<2>&) const { return -3; } };
struct RTyp { typedef long result_type; int operator()(const X<0>&) const { return 7; } long operator()(const N<1>&) const { return W1; } short operator()(const M<2>&) const { return -3; } };
struct RRef : boost::static_visitor<const int&> { int* i; const int* c; int& operator()(const X<0>&) const { return *i; } const int& operator()(const N<1>&) const { return *c; } int& operator()(const M<2>&) const { return *i; } };
extern "C" void drv_declared() { V0_(K, v); K::any_state(v); const V& c = v; long e = want(v.which()); RWide f; RTyp t; int i = 1, k = 2; RRef q; q.i = &i; q.c = &k; const RRef cq = q; const int* x = v.which() == 1 ? &k : &i;
  static_assert(std::is_same<decltype(boost::apply_visitor(f, v)), long>::value && std::is_same<decltype(boost::apply_visitor(t, c)), long>::value && std::is_same<decltype(boost::apply_visitor(q, v)), const int&>::value && std::is_same<decltype(boost::apply_visitor(q)(v)), const int&>::value, "the declared result type");
  switch (vsa_choose(8)) {
    case 0: CHECKM(boost::apply_visitor(f, v) == e, "the visitor's result"); break; case 1: CHECKM(boost::apply_visitor(t, c) == e, "the visitor's result"); break; case 2: CHECKM(boost::apply_visitor(f)(v) == e, "the visitor's result"); break; case 3: CHECKM(v.apply_visitor(t) == e, "the visitor's result"); break;
    case 4: CHECKM(&boost::apply_visitor(q, v) == x, "a reference result is returned as that reference"); break; case 5: CHECKM(&boost::apply_visitor(cq, c) == x, "a reference result is returned as that reference"); break; case 6: CHECKM(&boost::apply_visitor(q)(v) == x, "a reference result is returned as that reference"); break; case 7: CHECKM(&c.apply_visitor(q) == x, "a reference result is returned as that reference"); break; }
  vsa_cover("done"); }
