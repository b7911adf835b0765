// Abstract clients: put a variant into any reachable state, observe it, mutate it, dispatch on a bounded type.
#ifndef VSA_KIT_H
#define VSA_KIT_H
#include "types.h"
// Under clang in C++23 mode the library compiles out operator=(T&&) (listed in known_findings.txt, decided by the
// clang23 units); the other units leave that one form out there.
#if defined(__clang__) && __cplusplus > 202002L
#define VSA_NO_RVALUE_ASSIGN 1
#endif
template <class T> struct tag { typedef T type; };
struct St { int w, id, tracked; tok val; const void* addr; };
struct Scramble : boost::static_visitor<void> {          // changes the content through non-const visitation
  template <class T> void operator()(T& x) const { go(x, std::integral_constant<bool, VT<T>::tracked>()); }
  template <class T> static void go(T& x, std::true_type) { vsa_settok(std::addressof(x), VT<T>::id, vsa_fresh()); }
  static void go(int& x, std::false_type) { x = vsa_int(); }
  static void go(boost::blank&, std::false_type) {}
  template <class T> static void go(T& x, std::false_type) { x = VT<T>::make(vsa_fresh()); }
};
template <class... Ts> struct Fallback;                   // facts the documentation derives from the list
template <class T> struct nothrow_default { enum { value = std::is_nothrow_default_constructible<T>::value }; };
template <class T> struct nothrow_default<boost::recursive_wrapper<T> > { enum { value = 0 }; };
template <class... Ts> struct any_nd; template <> struct any_nd<> { enum { value = 0 }; };
template <class T, class... R> struct any_nd<T, R...> { enum { value = nothrow_default<T>::value || any_nd<R...>::value }; };
template <class... Ts> struct has_blank; template <> struct has_blank<> { enum { value = 0 }; };
template <class T, class... R> struct has_blank<T, R...> { enum { value = std::is_same<T, boost::blank>::value || has_blank<R...>::value }; };
template <class T> struct is_rw { enum { value = 0 }; }; template <class T> struct is_rw<boost::recursive_wrapper<T> > { enum { value = 1 }; };
template <class A, class... Ts> struct any_same; template <class A> struct any_same<A> { enum { value = 0 }; };
template <class A, class T, class... R> struct any_same<A, T, R...> { enum { value = std::is_same<A, T>::value || any_same<A, R...>::value }; };
template <class T> struct deft { enum { nd = std::is_nothrow_default_constructible<T>::value }; };

template <class V_, class... Ts> struct KitV {
  typedef V_ V; enum { n = sizeof...(Ts), any_nothrow_default = any_nd<Ts...>::value, blank = has_blank<Ts...>::value };
  template <int K> struct at : nth<K, Ts...> {};
  template <class F, class... R> struct disp; 
  template <class F> struct disp<F> { static void go(int, F&) {} };
  template <class F, class T, class... R> struct disp<F, T, R...> { static void go(int k, F& f) { if (k == 0) f(tag<typename unw<T>::type>()); else disp<F, R...>::go(k - 1, f); } };
  template <class F> static void with(int k, F f) { disp<F, Ts...>::go(k, f); }
  enum { len = sizeof...(Ts) }; template <class F> static void with_which(int w, F f) { disp<F, Ts...>::go(w, f); }
  static St obs(const V& v) { Obs o; boost::apply_visitor(o, v); St s = { v.which(), o.id, o.tracked, o.val, o.addr }; CHECKM(o.calls == 1, "visitation reaches the content exactly once"); return s; }
  static void valid(const V& v) { check_valid<V, Ts...>(v); }
  struct AsgR { V& v; template <class T> void operator()(tag<T>) const { T x(VT<T>::make(vsa_fresh())); v = std::move(x); } };
  struct AsgL { V& v; template <class T> void operator()(tag<T>) const { const T x(VT<T>::make(vsa_fresh())); v = x; } };
  // any bounded type, with a fresh value
  static void any_type(V& v) { int k = vsa_choose(n); AsgR f = { v }; with(k, f); }
#ifdef VSA_EXC
  // any state: any bounded type, and possibly one earlier assignment that failed
  static void any_state(V& v) {
    any_type(v);
    if (vsa_choose_named("an earlier assignment to the variant failed")) {
      vsa_throw_mode = 1; bool ok = false;
      try { int j = vsa_choose(n); AsgL f = { v }; with(j, f); ok = true; } catch (Boom&) {}
      vsa_throw_mode = 0; vsa_thrown = 0; vsa_last_thrown = 0;
      if (ok) vsa_stop();
    }
    reset();
  }
#endif
  template <class T> struct is_wrapped { enum { value = any_same<boost::recursive_wrapper<T>, Ts...>::value }; };
  static bool wrapped_id(int id) { static const int ids[] = { (int)VT<Ts>::id... }; static const int wr[] = { (int)is_rw<Ts>::value... }; for (int i = 0; i < (int)n; ++i) if (wr[i] && ids[i] == id) return true; return false; }
  static void reset() { for (int i = 0; i < 16; ++i) vsa_cnt[i] = 0; }
  static V make0() { return V(VT<typename at<0>::type>::make(vsa_fresh())); }
  static void scramble(V& v) { boost::apply_visitor(Scramble(), v); }
  static void same_content(const St& a, const St& b, const char* m) { vsa_check(a.w == b.w && a.id == b.id && vsa_same(a.val, b.val), m); }
};
template <class... Ts> struct Kit : KitV<boost::variant<Ts...>, Ts...> {};
#define V0(K, v) typename K::V v(VT<typename K::template at<0>::type>::make(vsa_fresh()))
#define V0_(K, v) K::V v(VT<K::at<0>::type>::make(vsa_fresh()))
// lists of bounded types: one per dispatch class the library distinguishes
typedef boost::recursive_wrapper<X<0> > RX0; typedef boost::recursive_wrapper<X<2> > RX2;
typedef boost::recursive_wrapper<X<5> > RX5;
typedef Kit<X<0>, X<1>, X<2> > KA;                     // everything throws: heap backup
typedef Kit<X<0>, N<1>, M<2>, C<3> > KB;               // mixed
typedef Kit<X<0>, D<1>, M<2> > KC;                     // user fallback type
typedef Kit<X<0>, D<1>, boost::blank, CO<3> > KD;      // blank preferred, copy-only
typedef Kit<int, X<1>, RX2> KE;                        // scalar fallback, wrapped
typedef Kit<RX0, X<1>, M<2> > KF;                      // wrapped first
typedef Kit<A<0>, W<1>, S<2>, SW<3> > KG;              // alignment, size, own swap
typedef Kit<N<0>, ND<1>, N<2> > KH;                    // nothing throws
typedef Kit<M<0>, XD<1>, CO<2> > KI;
typedef Kit<M<0>, A<1>, RX5> KJ;                       // nothrow moves next to a wrapped type
typedef Kit<S<0>, S<1>, S<2> > KK;                     // all smaller and less aligned than a pointer, all throwing
typedef Kit<S<0>, N<1>, S<2> > KL;
typedef Kit<Y<0>, X<1>, NA<2> > KM5;
typedef Kit<Y<0>, D<1>, NB<2> > KN5;
typedef boost::recursive_wrapper<Y<2> > RY2;
typedef Kit<Y<0>, Y<1>, RY2> KO5;
// lists with move-only types (no earlier failed copy assignment is possible there)
template <class... Ts> struct KitM : Kit<Ts...> { typedef typename Kit<Ts...>::V V; static void any_state(V& v) { Kit<Ts...>::any_type(v); } };
typedef boost::recursive_wrapper<MO<2> > RMO2;
typedef KitM<MO<0>, MO<1>, N<2> > KA6; typedef KitM<MO<0>, boost::blank, M<2> > KB6; typedef KitM<int, MO<1>, RMO2> KC6;
typedef Kit<long, Pod, En, void*> KP7;                  // everything trivially copyable
typedef Kit<Pnd, X<1>, RX2> KO7;                        // trivially copyable next to throwing ones, no fallback
typedef Kit<PV<0>, FI<1>, EM<2> > KQ7; typedef Kit<WW<0>, AL<1>, PV<2> > KR7;
typedef Kit<X<0> > KS8; typedef Kit<In8, X<1>, N<2> > KT8; typedef Kit<boost::recursive_wrapper<X<0> > > KU8;
#ifndef LS
#define LS 0
#endif
#if LS == 0
#define FOR_LISTS(NAME, FN) extern "C" void drv_##NAME##_A() { FN<KA>(); } extern "C" void drv_##NAME##_B() { FN<KB>(); } 
#elif LS == 1
#define FOR_LISTS(NAME, FN) extern "C" void drv_##NAME##_C() { FN<KC>(); } extern "C" void drv_##NAME##_D() { FN<KD>(); } extern "C" void drv_##NAME##_H() { FN<KH>(); }
#elif LS == 2
#define FOR_LISTS(NAME, FN) extern "C" void drv_##NAME##_E() { FN<KE>(); } extern "C" void drv_##NAME##_F() { FN<KF>(); } 
#elif LS == 3
#define FOR_LISTS(NAME, FN) extern "C" void drv_##NAME##_G() { FN<KG>(); } extern "C" void drv_##NAME##_I() { FN<KI>(); } extern "C" void drv_##NAME##_J() { FN<KJ>(); }
#elif LS == 4
#define FOR_LISTS(NAME, FN) extern "C" void drv_##NAME##_K() { FN<KK>(); } extern "C" void drv_##NAME##_L() { FN<KL>(); }
#elif LS == 5
#define FOR_LISTS(NAME, FN) extern "C" void drv_##NAME##_M() { FN<KM5>(); } extern "C" void drv_##NAME##_N() { FN<KN5>(); } extern "C" void drv_##NAME##_O() { FN<KO5>(); }
#elif LS == 6 && defined(VSA_NO_RVALUE_ASSIGN)
#define FOR_LISTS(NAME, FN) extern "C" void drv_##NAME##_A() { FN<KA>(); }
#elif LS == 6
#define FOR_LISTS(NAME, FN) extern "C" void drv_##NAME##_MA() { FN<KA6>(); } extern "C" void drv_##NAME##_MB() { FN<KB6>(); } extern "C" void drv_##NAME##_MC() { FN<KC6>(); }
#elif LS == 7
#define FOR_LISTS(NAME, FN) extern "C" void drv_##NAME##_P() { FN<KP7>(); } extern "C" void drv_##NAME##_O() { FN<KO7>(); } extern "C" void drv_##NAME##_Q() { FN<KQ7>(); } extern "C" void drv_##NAME##_R() { FN<KR7>(); }
#elif LS == 8
#define FOR_LISTS(NAME, FN) extern "C" void drv_##NAME##_S() { FN<KS8>(); } extern "C" void drv_##NAME##_T() { FN<KT8>(); } extern "C" void drv_##NAME##_U() { FN<KU8>(); }
#elif LS == 10
#define FOR_LISTS(NAME, FN) extern "C" void drv_##NAME##_X() { FN<KX10>(); } extern "C" void drv_##NAME##_Y() { FN<KY10>(); }
#endif
#if LS == 10
#include "wide.h"
#endif
#endif
