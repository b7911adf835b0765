//@std 17 11
//@std+ 14 20 2b
//@config relaxed: -DBOOST_VARIANT_USE_RELAXED_GET_BY_DEFAULT
//@cover all:done
#define VSA_MAIN
#include "kit.h"
#include <boost/variant/polymorphic_get.hpp>
struct B1 { int b1; B1() noexcept : b1(1) {} virtual ~B1() noexcept {} virtual int f() const noexcept { return 1; } };
struct B2 { int b2; B2() noexcept : b2(2) {} };
struct B3 { int b3; B3() noexcept : b3(3) {} virtual int g() const noexcept { return 3; } virtual ~B3() noexcept {} };
struct D1 : B1 { int d1; D1() noexcept : d1(4) {} int f() const noexcept override { return 11; } };
struct D12 : B1, B2 { int d; D12() noexcept : d(5) {} };                    // B2 is a secondary base
struct D321 : B3, B2, B1 { int d; D321() noexcept : d(6) {} };              // B1 is the last base
struct DD1 : D1 { int e; DD1() noexcept : e(7) {} };
struct Un { int u; Un() noexcept : u(8) {} };                                // unrelated
struct VB : virtual B2 { int v; VB() noexcept : v(9) {} };                    // virtual base
struct B1conv { int c; B1conv() noexcept : c(0) {} operator B1() const { return B1(); } };
typedef boost::variant<int, D1, D12, D321, DD1, Un, B1, VB, B1conv> V;
template <class U> struct AsBase : boost::static_visitor<const void*> {      // expected: the language's own derived-to-base conversion
  template <class T> const void* operator()(const T& x) const { return go(&x, std::integral_constant<bool, std::is_convertible<const T*, const U*>::value>()); }
  template <class T> static const void* go(const T* x, std::true_type) { const U* u = x; return u; } template <class T> static const void* go(const T*, std::false_type) { return 0; } };
static void fill(V& v) { switch (vsa_choose(9)) { case 0: v = 1; break; case 1: v = D1(); break; case 2: v = D12(); break; case 3: v = D321(); break; case 4: v = DD1(); break; case 5: v = Un(); break; case 6: v = B1(); break; case 7: v = VB(); break; case 8: v = B1conv(); break; } }
#define P(e) CHECKM((const void*)(e) == x, "polymorphic_get yields the content viewed as U, or null")
#define R(e) { bool threw = false; const void* a = 0; try { a = &(e); } catch (boost::bad_polymorphic_get&) { threw = true; } CHECKM(x ? (!threw && a == x) : threw, "the reference form yields the content viewed as U, or throws bad_polymorphic_get"); }
template <class U> void one(V& v) {
  const V& cv = v; const void* x = boost::apply_visitor(AsBase<U>(), v); V* n = 0; const V* cn = 0; vsa_freeze(&v, sizeof(v));
  switch (vsa_choose(8)) {
    case 0: P(boost::polymorphic_get<U>(&v)); P(boost::polymorphic_get<U>(&cv)); break;
    case 1: P(boost::polymorphic_strict_get<U>(&v)); P(boost::polymorphic_strict_get<U>(&cv)); break;
    case 2: P(boost::polymorphic_relaxed_get<U>(&v)); P(boost::polymorphic_relaxed_get<U>(&cv)); break;
    case 3: R(boost::polymorphic_get<U>(v)); R(boost::polymorphic_get<U>(cv)); break;
    case 4: R(boost::polymorphic_strict_get<U>(v)); R(boost::polymorphic_strict_get<U>(cv)); break;
    case 5: R(boost::polymorphic_relaxed_get<U>(v)); R(boost::polymorphic_relaxed_get<U>(cv)); break;
    case 6: CHECKM(boost::polymorphic_get<U>(n) == 0 && boost::polymorphic_get<U>(cn) == 0 && boost::polymorphic_relaxed_get<U>(n) == 0 && boost::polymorphic_relaxed_get<U>(cn) == 0 && boost::polymorphic_strict_get<U>(n) == 0 && boost::polymorphic_strict_get<U>(cn) == 0, "a null variant pointer yields null"); break;
    case 7: P(boost::polymorphic_get<const U>(&v)); P(boost::polymorphic_relaxed_get<const U>(&cv)); R(boost::polymorphic_get<const U>(v)); break;
  }
  vsa_unfreeze(&v, sizeof(v));
  static_assert(std::is_same<decltype(boost::polymorphic_get<U>(v)), U&>::value && std::is_same<decltype(boost::polymorphic_get<U>(cv)), const U&>::value && std::is_same<decltype(boost::polymorphic_get<U>(&v)), U*>::value && std::is_same<decltype(boost::polymorphic_get<U>(&cv)), const U*>::value, "result types");
  vsa_cover("done");
}
extern "C" void drv_B1() { V v; fill(v); one<B1>(v); } extern "C" void drv_B2() { V v; fill(v); one<B2>(v); } extern "C" void drv_B3() { V v; fill(v); one<B3>(v); }
extern "C" void drv_D1() { V v; fill(v); one<D1>(v); } extern "C" void drv_D321() { V v; fill(v); one<D321>(v); } extern "C" void drv_Un() { V v; fill(v); one<Un>(v); } extern "C" void drv_int() { V v; fill(v); one<int>(v); }
extern "C" void drv_foreign() { V v; fill(v); const V& cv = v; struct F { int z; };
  CHECKM(boost::polymorphic_relaxed_get<F>(&v) == 0 && boost::polymorphic_relaxed_get<F>(&cv) == 0 && boost::polymorphic_relaxed_get<long>(&v) == 0, "a foreign type yields null");
  bool t = false; try { (void)boost::polymorphic_relaxed_get<F>(v); } catch (boost::bad_get&) { t = true; } CHECKM(t, "a foreign type throws an exception derived from bad_get"); vsa_cover("done"); }
// the recovered base is live and modifiable in place
extern "C" void drv_modify() { V v; fill(v); if (B1* b = boost::polymorphic_get<B1>(&v)) { b->b1 = 42; CHECKM(boost::polymorphic_get<B1>(v).b1 == 42, "a change through polymorphic_get changes the content"); const V& cv = v; V w(cv); CHECKM(boost::polymorphic_get<B1>(w).b1 == 42, "and is seen by a copy"); } vsa_cover("done"); }
// const bounded types never yield mutable access
typedef boost::variant<int, const D1, const Un> VC;
extern "C" void drv_const_elem() { VC v(1); VC w((D1())); VC* p = vsa_choose(2) ? &v : &w; bool d = p == &w;
  CHECKM(boost::polymorphic_relaxed_get<B1>(p) == 0, "a mutable base view of a const element is refused"); CHECKM((boost::polymorphic_relaxed_get<const B1>(p) != 0) == d, "a const base view of a const element is found"); vsa_cover("done"); }
