//@std 17 20
//@std+ 11 14 2b
//@config l1: -DLS=1
//@config l2: -DLS=2
//@config l3: -DLS=3
//@config l7: -DLS=7
//@config l8: -DLS=8
//@config l6: -DLS=6
//@config l5: -DLS=5
//@ignore LEAK-OBJECT LEAK-HEAP
//@cover all:same all:differ
#define VSA_MAIN
#include "kit.h"
namespace boost { inline bool vsa_blank_ok() { return true; } }
// reference answers, from the bounded type's own operators on the stored objects
template <class K> struct Spec { const typename K::V& a; const typename K::V& b; bool* eq; bool* lt; bool* gt;
  template <class T> void operator()(tag<T>) const { const T* x = boost::get<T>(&a); const T* y = boost::get<T>(&b); *eq = (*x == *y); *lt = (*x < *y); *gt = (*y < *x); } };
template <class K> void ask(const typename K::V& a, const typename K::V& b) {
  bool eq = false, lt, gt; int wa = a.which(), wb = b.which();
  if (wa == wb) { Spec<K> s = { a, b, &eq, &lt, &gt }; K::with(wa, s); vsa_cover("same"); } else { lt = wa < wb; gt = wb < wa; vsa_cover("differ"); }
  switch (vsa_choose(6)) {
    case 0: CHECKM((a == b) == eq, "== holds iff same index and equal contents"); break;
    case 1: CHECKM((a < b) == lt, "< is by index, then by content, left operand first"); break;
    case 2: CHECKM((a != b) == !eq, "!= is the negation of =="); break;
    case 3: CHECKM((a > b) == gt, "a > b is b < a"); break;
    case 4: CHECKM((a <= b) == !gt, "a <= b is not b < a"); break;
    case 5: CHECKM((a >= b) == !lt, "a >= b is not a < b"); break;
  }
}
template <class K> void compare() {
  V0(K, a); K::any_state(a); V0(K, b); K::any_state(b); vsa_freeze(&a, sizeof(a)); vsa_freeze(&b, sizeof(b));
  vsa_alloc_forbid(1); ask<K>(a, b); vsa_alloc_forbid(0);
  vsa_unfreeze(&a, sizeof(a)); vsa_unfreeze(&b, sizeof(b));
}
template <class K> void self() { V0(K, a); K::any_state(a); vsa_freeze(&a, sizeof(a)); ask<K>(a, a); vsa_unfreeze(&a, sizeof(a)); vsa_cover("differ"); }
#if LS == 8
#undef FOR_LISTS
#define FOR_LISTS(NAME, FN) extern "C" void drv_##NAME##_T() { FN<KT8>(); }
#endif
FOR_LISTS(compare, compare)
FOR_LISTS(self, self)
