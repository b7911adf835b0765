//@std 17
//@std+ 11 14 20 2b
//@config l1: -DLS=1
//@config l2: -DLS=2
//@config l3: -DLS=3
//@config l7: -DLS=7
//@config l10: -DLS=10
//@config l8: -DLS=8
//@config l5: -DLS=5
//@config l4: -DLS=4
//@config min: -DBOOST_VARIANT_MINIMIZE_SIZE -DLS=3
//@config min4: -DBOOST_VARIANT_MINIMIZE_SIZE -DLS=4
//@config+ min0: -DBOOST_VARIANT_MINIMIZE_SIZE
//@ignore LEAK-OBJECT LEAK-HEAP
//@cover all:done
#define VSA_MAIN
#include "kit.h"
// Placement: after every successful operation the value lies inside the variant (the engine's ALIGNMENT, BOUNDS and
// CLOBBER rules apply to every construction); allocation: the engine reports any allocation while forbidden.
template <class K> bool placed(const typename K::V& v) { St s = K::obs(v); return K::wrapped_id(s.id) || (vsa_inside(s.addr, &v, sizeof v) && ((std::size_t)((const char*)s.addr - (const char*)&v)) < sizeof v); }
template <class K> void inplace() { typedef typename K::V V; V0(K, a); K::any_state(a); V0(K, b); K::any_type(b); CHECKM(placed<K>(b), "the value lives inside the variant"); const bool pre = placed<K>(a); const int w0 = a.which();   // a value preserved on the heap may be assigned to there
  switch (vsa_choose(6)) {
    case 0: { V c(a); CHECKM(placed<K>(c), "a copy's value lives inside it"); break; } case 1: { V c(std::move(a)); CHECKM(placed<K>(c), "a moved value lives inside its new variant"); break; }
    case 2: a = b; CHECKM((!pre && a.which() == w0) || placed<K>(a), "an assigned value lives inside the variant"); break; case 3: a = std::move(b); CHECKM((!pre && a.which() == w0) || placed<K>(a), "an assigned value lives inside the variant"); break;
    case 4: { V c(b); V d(b); K::any_type(d); c.swap(d); CHECKM(placed<K>(c) && placed<K>(d), "swapped values live inside their variants"); break; } case 5: K::any_type(a); CHECKM((!pre && a.which() == w0) || placed<K>(a), "an assigned value lives inside the variant"); break; }
  vsa_cover("done"); }
template <class... Ts> struct w_any; template <> struct w_any<> { enum { value = 0 }; }; template <class T, class... R> struct w_any<T, R...> { enum { value = is_rw<T>::value || w_any<R...>::value }; };
template <class K> struct wr; template <class... Ts> struct wr<Kit<Ts...> > { enum { value = w_any<Ts...>::value }; };
// reading, destroying and constructing never allocate, in any state (unless a wrapped value is copied)
template <class K> struct Gets { const typename K::V& v; template <class T> void operator()(tag<T>) const { (void)boost::get<T>(&v); } };
template <class K> void reads() { typedef typename K::V V; V0(K, a); K::any_state(a); V0(K, b); K::any_state(b); int h = vsa_choose(6); bool w = K::wrapped_id(K::obs(a).id); if (h >= 3 && w) { vsa_cover("done"); return; }
  vsa_alloc_forbid(1);
  switch (h) { case 0: (void)K::obs(a); (void)a.which(); (void)&a.type(); break; case 1: (void)(a == b); (void)(a < b); break; case 2: { Gets<K> g = { a }; K::with(vsa_choose(K::n), g); break; }
    case 3: { V c(a); (void)c.which(); break; } case 4: { V c(std::move(a)); (void)c.which(); break; } case 5: K::scramble(a); break; }
  vsa_alloc_forbid(0); vsa_cover("done"); }
// assignments from a value
template <class K> struct Asg { typename K::V& v; template <class T> void operator()(tag<T>) const { typedef typename K::V V;
  const bool same = v.which() == V(VT<T>::make(vsa_fresh())).which(); T x(VT<T>::make(vsa_fresh())); bool lv = vsa_choose(2);
  const bool cheap = std::is_nothrow_copy_constructible<T>::value || std::is_nothrow_move_constructible<T>::value || K::any_nothrow_default;
  if (!same && !cheap) { if (lv) v = x; else v = std::move(x); vsa_cover("done"); return; }
  vsa_throw_mode = 1; vsa_alloc_forbid(1); try { if (lv) v = x; else v = std::move(x); } catch (Boom&) {} vsa_alloc_forbid(0); vsa_throw_mode = 0; vsa_cover("done"); } };
template <class K> struct Same { typename K::V& v; int& r; template <class T> void operator()(tag<T>) const { r = std::is_nothrow_copy_constructible<T>::value || std::is_nothrow_move_constructible<T>::value; } };
template <class K> void assigns() { if (wr<K>::value) { vsa_cover("done"); return; } V0(K, a); K::any_type(a); Asg<K> f = { a }; K::with(vsa_choose(K::n), f); }
template <class K> void whole() { typedef typename K::V V; if (wr<K>::value) { vsa_cover("done"); return; } V0(K, a); K::any_type(a); V0(K, b); K::any_type(b);
  int ca = 0, cb = 0; Same<K> fa = { a, ca }; K::with(a.which(), fa); Same<K> fb = { b, cb }; K::with(b.which(), fb); bool same = a.which() == b.which(), nd = K::any_nothrow_default; int h = vsa_choose(4);
  bool must = same || nd || (h < 2 ? cb : (ca && cb)); vsa_throw_mode = 1; if (must) vsa_alloc_forbid(1);
  try { switch (h) { case 0: { const V& c = b; a = c; break; } case 1: a = std::move(b); break; case 2: a.swap(b); break; case 3: swap(a, b); break; } } catch (Boom&) {}
  vsa_alloc_forbid(0); vsa_throw_mode = 0; vsa_cover("done"); }
FOR_LISTS(inplace, inplace)
FOR_LISTS(reads, reads)
#if LS == 0
#define P2(NAME, FN) extern "C" void drv_##NAME##_A() { FN<Kit<X<0>, X<1>, X<2> > >(); } extern "C" void drv_##NAME##_B() { FN<Kit<X<0>, N<1>, M<2>, C<3> > >(); }
#elif LS == 1
#define P2(NAME, FN) extern "C" void drv_##NAME##_C() { FN<Kit<X<0>, D<1>, M<2> > >(); } extern "C" void drv_##NAME##_D() { FN<Kit<X<0>, D<1>, boost::blank, CO<3> > >(); } extern "C" void drv_##NAME##_H() { FN<Kit<N<0>, ND<1>, N<2> > >(); }
#elif LS == 2
#define P2(NAME, FN) extern "C" void drv_##NAME##_E() { FN<Kit<int, X<1>, S<2> > >(); } extern "C" void drv_##NAME##_F() { FN<Kit<A<0>, X<1>, M<2> > >(); }
#elif LS == 4
#define P2(NAME, FN) extern "C" void drv_##NAME##_K() { FN<Kit<S<0>, S<1>, S<2> > >(); } extern "C" void drv_##NAME##_L() { FN<Kit<S<0>, N<1>, S<2> > >(); }
#else
#define P2(NAME, FN) extern "C" void drv_##NAME##_G() { FN<Kit<A<0>, W<1>, S<2>, SW<3> > >(); } extern "C" void drv_##NAME##_I() { FN<Kit<M<0>, XD<1>, CO<2> > >(); } extern "C" void drv_##NAME##_S() { FN<Kit<S<0>, S<1>, N<2>, A<3> > >(); }
#endif
P2(assigns, assigns)
P2(whole, whole)
