//@std 17
//@std+ 11 14 20 2b
//@config min: -DBOOST_VARIANT_MINIMIZE_SIZE
//@config u3: -DBOOST_VARIANT_VISITATION_UNROLLING_LIMIT=3
//@config u1: -DBOOST_VARIANT_VISITATION_UNROLLING_LIMIT=1
//@config rg: -DBOOST_VARIANT_USE_RELAXED_GET_BY_DEFAULT
//@config nrtti: -fno-rtti
//@config nexc: -fno-exceptions
//@config nexcmin: -fno-exceptions -fno-rtti -DBOOST_VARIANT_MINIMIZE_SIZE -DNDEBUG
//@config+ min3: -DBOOST_VARIANT_MINIMIZE_SIZE -DBOOST_VARIANT_VISITATION_UNROLLING_LIMIT=7
//@config ndebug: -DNDEBUG
//@cover all:done
// The same behavioural obligations under every build configuration: construction, assignment, swap, visitation, get,
// comparison, which(). The expected answer never comes from the library.
#define VSA_MAIN
#include "wide.h"
#ifndef VSA_EXC
#include <cstdlib>
namespace boost { void throw_exception(std::exception const&) { std::abort(); } void throw_exception(std::exception const&, boost::source_location const&) { std::abort(); } }
#endif
template <class K> struct Put { typename K::V& v; tok t; int how; template <class T> void operator()(tag<T>) const {
  if (how == 0) { const T x(VT<T>::make(t)); v = x; } else if (how == 1) { T x(VT<T>::make(t)); v = std::move(x); } else { T x(VT<T>::make(t)); typename K::V w(x); if (how == 2) v = w; else if (how == 3) v = std::move(w); else v.swap(w); } } };
template <class K> struct Is { const typename K::V& v; int k; tok t; template <class T> void operator()(tag<T>) const {
  St s = K::obs(v); CHECKM(v.which() == k, "which() is the position of the stored type"); CHECKM(s.id == VT<T>::id && vsa_same(s.val, VT<T>::tracked ? t : VT<T>::val(VT<T>::make(t))), "visitation sees the stored value with its type");
  const T* p = boost::get<T>(&v); CHECKM(p && (const void*)p == s.addr, "get yields the stored object"); CHECKM(&boost::relaxed_get<T>(v) == p && &boost::strict_get<T>(v) == p, "every form of get yields the stored object");
} };
template <class K> struct IsNot { const typename K::V& v; template <class T> void operator()(tag<T>) const { CHECKM(!boost::get<T>(&v) && !boost::relaxed_get<T>(&v) && !boost::strict_get<T>(&v), "get of another type yields null"); } };
template <class K> void one(const typename K::V& v, int k, tok t) { K::valid(v); Is<K> i = { v, k, t }; K::with(k, i); int j = vsa_choose(K::n); if (j != k) { IsNot<K> n = { v }; K::with(j, n); } }
template <class K> void body() {
  V0(K, a); V0(K, b); tok t = vsa_fresh(), u = vsa_fresh(); int i = vsa_choose(K::n), j = vsa_choose(K::n); Put<K> p = { a, t, 1 }; K::with(i, p); Put<K> q = { b, u, 0 }; K::with(j, q);
  switch (vsa_choose(5)) {
    case 0: one<K>(a, i, t); break;
    case 1: { Put<K> r = { a, u, vsa_choose(5) }; K::with(j, r); one<K>(a, j, u); break; }
    case 2: a.swap(b); one<K>(a, j, u); one<K>(b, i, t); break;
    case 3: { typename K::V c(b); a = c; one<K>(a, j, u); one<K>(b, j, u); one<K>(c, j, u); break; }
    case 4: if (K::is_scalar_list) break; { bool eq = i == j && vsa_rel(REL_EQ, t, u), lt = i == j ? vsa_rel(REL_LT, t, u) != 0 : i < j; CHECKM((a == b) == eq && (a < b) == lt && (a != b) == !eq && (a >= b) == !lt, "comparison is by index, then content"); break; }
  }
  vsa_cover("done"); }
template <class K, int S = 0> struct Q : K { enum { is_scalar_list = S }; };
extern "C" void drv_A() { body<Q<KA> >(); } extern "C" void drv_B() { body<Q<KB> >(); } extern "C" void drv_F() { body<Q<KF> >(); } extern "C" void drv_C() { body<Q<KC> >(); } extern "C" void drv_D() { body<Q<KD, 1> >(); }
extern "C" void drv_w4() { body<Q<MW<4> > >(); }
