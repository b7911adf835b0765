//@std 17
//@std+ 14 20 2b
//@config l1: -DLS=1
//@config l2: -DLS=2
//@config l3: -DLS=3
//@config l7: -DLS=7
//@config l10: -DLS=10
//@config l8: -DLS=8
//@config l5: -DLS=5
//@config+ l4: -DLS=4
//@ignore LEAK-OBJECT LEAK-HEAP
//@cover all:done
#define VSA_MAIN
#include "kit.h"
// both sides are independent: changing one does not show through the other
template <class K> void independent(typename K::V& a, typename K::V& b, const St& s) {
  K::valid(a); K::valid(b);
  K::same_content(K::obs(b), s, "the copy holds the source's type and value");
  K::same_content(K::obs(a), s, "the source still holds its type and value");
  CHECKM(K::obs(a).addr != K::obs(b).addr, "the copy has an object of its own");
  K::scramble(b); K::same_content(K::obs(a), s, "changing the copy leaves the source alone");
  St t = K::obs(b); K::scramble(a); K::same_content(K::obs(b), t, "changing the source leaves the copy alone");
}
template <class K> void copy_construct() {
  V0(K, a); K::any_state(a); St s = K::obs(a);
  vsa_throw_mode = 1; vsa_alloc_mode(1); vsa_freeze(&a, sizeof(a));
  try {
    switch (vsa_choose(2)) {
      case 0: { typename K::V b(static_cast<const typename K::V&>(a)); vsa_unfreeze(&a, sizeof(a)); vsa_throw_mode = 0; vsa_alloc_mode(0); independent<K>(a, b, s); vsa_cover("done"); break; }
      case 1: { typename K::V b(a); vsa_unfreeze(&a, sizeof(a)); vsa_throw_mode = 0; vsa_alloc_mode(0); independent<K>(a, b, s); break; }
    }
  } catch (Boom& e) { vsa_unfreeze(&a, sizeof(a)); CHECK_SAME(e.id, vsa_last_thrown, "the bounded type's exception propagates"); } catch (std::bad_alloc&) { vsa_unfreeze(&a, sizeof(a)); }
  K::valid(a);
}
template <class K> void copy_assign() {
  typedef typename K::V V;
  V0(K, a); K::any_state(a); V0(K, b); K::any_state(b); St s = K::obs(a);
  vsa_throw_mode = 1; vsa_alloc_mode(1); vsa_freeze(&a, sizeof(a)); bool ok = false;
  try { V& r = (b = static_cast<const V&>(a)); ok = true; CHECKM(&r == &b, "assignment returns its left operand"); CHECKM(vsa_thrown == 0, "no exception is swallowed"); } catch (Boom&) {} catch (std::bad_alloc&) {}
  vsa_unfreeze(&a, sizeof(a)); vsa_throw_mode = 0; vsa_alloc_mode(0);
  if (ok) { independent<K>(a, b, s); vsa_cover("done"); } else { K::valid(a); K::valid(b); K::same_content(K::obs(a), s, "a failed copy leaves the source alone"); }
}
template <class K> void self_assign() {
  typedef typename K::V V;
  V0(K, a); K::any_state(a); St s = K::obs(a); V& r = a; bool ok = false;
  vsa_throw_mode = 1; vsa_alloc_mode(1);
  try { a = r; ok = true; } catch (Boom&) {} catch (std::bad_alloc&) {}
  vsa_throw_mode = 0; vsa_alloc_mode(0);
  K::valid(a); if (ok) { K::same_content(K::obs(a), s, "self-assignment leaves the variant unchanged"); vsa_cover("done"); }
}
// a copy of a copy, and a copy surviving its source
template <class K> void outlive() {
  typedef typename K::V V;
  V0(K, c); St s;
  { V0(K, a); K::any_state(a); s = K::obs(a); V b(a); c = b; K::scramble(b); }
  K::valid(c); K::same_content(K::obs(c), s, "a copy outlives its source"); vsa_cover("done");
}
FOR_LISTS(copy_construct, copy_construct)
FOR_LISTS(copy_assign, copy_assign)
FOR_LISTS(self_assign, self_assign)
FOR_LISTS(outlive, outlive)
