//@std 17
//@cover all:done
#define VSA_MAIN
#include "kit.h"
#include "wide.h"
template <class K> struct Mk { typename K::V& v; tok t; template <class T> void operator()(tag<T>) const { v = VT<T>::make(t); } };
template <class K> void wide() {
  V0(K, a); V0(K, b); tok t = vsa_fresh(), u = vsa_fresh(); int i = vsa_choose(K::n), j = vsa_choose(K::n); Mk<K> m = { a, t }, n = { b, u }; K::with(i, m); K::with(j, n);
  bool eq = i == j && vsa_rel(REL_EQ, t, u), lt = i == j ? vsa_rel(REL_LT, t, u) != 0 : i < j, gt = i == j ? vsa_rel(REL_LT, u, t) != 0 : j < i;
  CHECKM((a == b) == eq, "== holds iff same index and equal contents"); CHECKM((a < b) == lt, "< is by index, then content"); CHECKM((b < a) == gt, "< is by index, then content"); CHECKM((a <= b) == !gt && (a >= b) == !lt && (a > b) == gt && (a != b) == !eq, "the derived operators agree");
  vsa_cover("done"); }
extern "C" void drv_w23() { wide<NW<23> >(); } extern "C" void drv_m22() { wide<MW<22> >(); }
