//@std 17 11
//@std+ 14 20 2b
//@config l1: -DLS=1
//@config l2: -DLS=2
//@config l3: -DLS=3
//@config l7: -DLS=7
//@config l10: -DLS=10
//@config l8: -DLS=8
//@config l9: -DLS=9
//@ignore LEAK-OBJECT LEAK-HEAP
//@cover all:done
#define VSA_MAIN
#include "kit.h"
#include <boost/variant/polymorphic_get.hpp>
static void on() { vsa_throw_mode = 1; vsa_alloc_mode(1); } static void off() { vsa_throw_mode = 0; vsa_alloc_mode(0); }
// every operation, every throw point: an exception either reaches the caller or nothing throws; the engine's TERMINATE
// rule reports an exception that meets a noexcept boundary
template <class K> void two() { typedef typename K::V V; V0(K, a); K::any_state(a); V0(K, b); K::any_type(b); bool threw = false;
  on();
  try { switch (vsa_choose(9)) {
    case 0: a = b; break; case 1: a = std::move(b); break; case 2: b = a; break; case 3: b = std::move(a); break;
    case 4: a.swap(b); break; case 5: { V c(a); break; } case 6: { V c(std::move(a)); break; } case 7: { V c(a); c.swap(b); break; } case 8: swap(a, b); break; } }
  catch (Boom& e) { threw = true; CHECK_SAME(e.id, vsa_last_thrown, "the exception that was thrown arrives"); } catch (std::bad_alloc&) { threw = true; }
  off();
  bool mc = std::is_nothrow_move_constructible<V>::value; (void)mc; vsa_cover("done"); }
template <class K> struct Asg { typename K::V& v; template <class T> void operator()(tag<T>) const { T x(VT<T>::make(vsa_fresh())); on(); try { if (vsa_choose(2)) v = x; else v = std::move(x); } catch (Boom&) {} catch (std::bad_alloc&) {} off(); vsa_cover("done"); } };
template <class K> void one() { V0(K, a); K::any_state(a); Asg<K> f = { a }; K::with(vsa_choose(K::n), f); }
// operations that promise never to throw, in any state, while every bounded-type operation and every allocation may fail
template <class K> struct Gets { typename K::V& v; template <class T> void operator()(tag<T>) const { const typename K::V& c = v; (void)boost::get<T>(&v); (void)boost::get<T>(&c); (void)boost::relaxed_get<T>(&c); (void)boost::polymorphic_get<T>(&c); } };
template <class K> void never() noexcept { typedef typename K::V V; V0(K, a); K::any_state(a); on();
  { const V& c = a; CHECKM(!c.empty() && c.which() >= 0 && c.which() < (int)K::len, "queries"); (void)&c.type(); Gets<K> g = { a }; K::with(vsa_choose(K::n), g); }
  vsa_cover("done"); }   // a is destroyed with everything allowed to throw
// declared noexcept for this list => never throws
template <class K> void declared() noexcept { typedef typename K::V V; V0(K, a); K::any_state(a); V0(K, b); K::any_state(b); on();
  if (std::is_nothrow_move_constructible<V>::value) { V c(std::move(a)); (void)c.which(); }
  if (std::is_nothrow_move_assignable<V>::value) { b = std::move(a); }
  if (std::is_nothrow_copy_constructible<V>::value) { V c(b); (void)c.which(); }
  if (std::is_nothrow_copy_assignable<V>::value) { a = b; }
  if (noexcept(a.swap(b))) { a.swap(b); }
  if (noexcept(swap(a, b))) { swap(a, b); }
  vsa_cover("done"); }
#if LS == 9
#define FOR_LISTS(NAME, FN)
#endif
FOR_LISTS(two, two)
FOR_LISTS(one, one)
FOR_LISTS(never, never)
FOR_LISTS(declared, declared)
#if LS == 3
typedef Kit<M<0>, N<1>, A<2> > KY; typedef Kit<N<0>, C<1> > KZ; typedef Kit<M<0>, boost::blank, ND<1> > KW;
extern "C" void drv_declared_Y() { declared<KY>(); } extern "C" void drv_declared_Z() { declared<KZ>(); } extern "C" void drv_declared_W() { declared<KW>(); } extern "C" void drv_two_Y() { two<KY>(); } extern "C" void drv_two_W() { two<KW>(); }
extern "C" void drv_wrapper() noexcept { typedef boost::recursive_wrapper<X<0> > RW; RW a(X<0>(X<0>::mk(), vsa_fresh())), b(X<0>(X<0>::mk(), vsa_fresh())); on(); a.swap(b); swap(a, b); if (noexcept(a = std::move(b))) a = std::move(b); vsa_cover("done"); }
#endif
#if LS == 9
// construction and assignment whose nothrow guarantees differ
typedef Kit<NA<0>, M<1> > KQ_; typedef Kit<NA<0>, boost::blank, N<1> > KR_; typedef Kit<NB<0>, N<1> > KS_; typedef Kit<M<0>, NB<1>, NA<2> > KT_; typedef Kit<NA<0>, SW<1> > KU_;
#define ALLN(NAME, FN) extern "C" void drv_##NAME##_Q() { FN<KQ_>(); } extern "C" void drv_##NAME##_R() { FN<KR_>(); } extern "C" void drv_##NAME##_S() { FN<KS_>(); } extern "C" void drv_##NAME##_T() { FN<KT_>(); } extern "C" void drv_##NAME##_U() { FN<KU_>(); }
ALLN(two, two) ALLN(one, one) ALLN(never, never) ALLN(declared, declared)
// default construction: declared noexcept => never throws, and an exception otherwise arrives
template <class V> void dflt() { on(); try { V v; (void)v.which(); vsa_cover("done"); } catch (Boom& e) { CHECK_SAME(e.id, vsa_last_thrown, "the exception that was thrown arrives"); } catch (std::bad_alloc&) {} off(); }
template <class V> void dflt_declared() noexcept { on(); if (std::is_nothrow_default_constructible<V>::value) { V v; (void)v.which(); } off(); vsa_cover("done"); }
typedef boost::variant<ND<0>, X<1> > V1; typedef boost::variant<XD<0>, N<1> > V2; typedef boost::variant<boost::recursive_wrapper<ND<0> >, N<1> > V3; typedef boost::variant<boost::recursive_wrapper<XD<0> >, ND<1> > V4; typedef boost::variant<D<0>, boost::recursive_wrapper<X<1> > > V5; typedef boost::variant<boost::variant<XD<0>, int>, int> V6;
extern "C" void drv_default() { switch (vsa_choose(6)) { case 0: dflt<V1>(); break; case 1: dflt<V2>(); break; case 2: dflt<V3>(); break; case 3: dflt<V4>(); break; case 4: dflt<V5>(); break; case 5: dflt<V6>(); break; } }
extern "C" void drv_default_declared() { switch (vsa_choose(6)) { case 0: dflt_declared<V1>(); break; case 1: dflt_declared<V2>(); break; case 2: dflt_declared<V3>(); break; case 3: dflt_declared<V4>(); break; case 4: dflt_declared<V5>(); break; case 5: dflt_declared<V6>(); break; } }
#endif
