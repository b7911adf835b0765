//@std 17
//@std+ 11 14 20 2b
//@config relaxed: -DBOOST_VARIANT_USE_RELAXED_GET_BY_DEFAULT
//@ignore LEAK-OBJECT LEAK-HEAP
//@cover all:done
#define VSA_MAIN
#include "kit.h"
// a bounded type convertible to / derived from another one is still not that type
struct Base { int x; Base() noexcept : x(0) {} }; struct Derived : Base { int y; Derived() noexcept : y(0) {} }; struct Conv { int z; Conv() noexcept : z(0) {} operator Base() const { return Base(); } operator int() const { return 7; } };
struct Amp { int a; Amp() noexcept : a(0) {} Amp* operator&() { return 0; } const Amp* operator&() const { return 0; } };     // overloaded operator&
typedef boost::variant<Derived, Base, Conv, Amp, int, char, const char*> V;
template <class U> const void* addr(const U& u) { return std::addressof(u); }
struct Addr : boost::static_visitor<const void*> { template <class T> const void* operator()(const T& x) const { return std::addressof(x); } };
template <class U> void one(V& v, bool m) {
  const V& cv = v; const void* a = boost::apply_visitor(Addr(), v);
  CHECKM((const void*)boost::get<U>(&v) == (m ? a : 0), "pointer get matches the exact type only");
  CHECKM((const void*)boost::get<U>(&cv) == (m ? a : 0), "pointer get matches the exact type only");
  CHECKM((const void*)boost::relaxed_get<U>(&v) == (m ? a : 0), "pointer get matches the exact type only");
  bool threw = false; const void* r = 0; try { r = std::addressof(boost::get<U>(v)); } catch (boost::bad_get&) { threw = true; } CHECKM(m ? (!threw && r == a) : threw, "reference get matches the exact type only");
  threw = false; r = 0; try { r = std::addressof(boost::get<U>(cv)); } catch (std::exception&) { threw = true; } CHECKM(m ? (!threw && r == a) : threw, "reference get matches the exact type only; bad_get is a std::exception");
}
extern "C" void drv_exact() {
  int k = vsa_choose(7); V v; switch (k) { case 0: v = Derived(); break; case 1: v = Base(); break; case 2: v = Conv(); break; case 3: v = Amp(); break; case 4: v = 3; break; case 5: v = 'c'; break; case 6: v = "s"; break; }
  CHECKM(v.which() == k, "the stored type is the given one");
  one<Derived>(v, k == 0); one<Base>(v, k == 1); one<Conv>(v, k == 2); one<Amp>(v, k == 3); one<int>(v, k == 4); one<char>(v, k == 5); one<const char*>(v, k == 6);
  CHECKM(boost::relaxed_get<long>(&v) == 0 && boost::relaxed_get<unsigned>(&v) == 0 && boost::relaxed_get<void*>(&v) == 0, "relaxed get of a foreign type yields null");
  vsa_cover("done");
}
// modifications through get reach the variant; rvalue get can be moved from
extern "C" void drv_modify() {
  typedef Kit<X<0>, M<1>, boost::recursive_wrapper<X<2> >, int> K; V0_(K, v); K::any_state(v); tok t = vsa_fresh(); St s = K::obs(v);
  if (X<0>* p = boost::get<X<0> >(&v)) { vsa_settok(p, X<0>::id, t); CHECK_SAME(K::obs(v).val, t, "a change through get changes the variant"); }
  else if (X<2>* p = boost::get<X<2> >(&v)) { vsa_settok(p, X<2>::id, t); CHECK_SAME(K::obs(v).val, t, "a change through get changes the variant"); }
  else if (boost::get<M<1> >(&v)) { M<1> m(boost::get<M<1> >(std::move(v))); CHECK_SAME(m.t(), s.val, "rvalue get yields the stored value"); CHECK_SAME(K::obs(v).val, TOK_MOVED, "rvalue get yields the stored object"); }
  else { boost::get<int>(v) = 5; CHECKM(boost::get<int>(v) == 5, "a change through get changes the variant"); }
  K::valid(v); vsa_cover("done");
}
