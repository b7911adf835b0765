//@std 17
//@std+ 14 20 2b
//@config l1: -DLS=1
//@config l2: -DLS=2
//@config l3: -DLS=3
//@config l7: -DLS=7
//@config l10: -DLS=10
//@config l8: -DLS=8
//@config l5: -DLS=5
//@config+ l4: -DLS=4
//@cover all:done
#define VSA_MAIN
#include "kit.h"
template <class T> struct ntm { enum { v = std::is_nothrow_move_constructible<T>::value && std::is_nothrow_move_assignable<T>::value }; };
template <class T> struct ntm<boost::recursive_wrapper<T> > { enum { v = 0 }; };
template <class V, class... Ts> struct NTV { static bool at(int w) { static const int t[] = { (int)ntm<Ts>::v... }; return t[w] != 0; } };
template <class V, class... Ts> NTV<V, Ts...> nt_of(const KitV<V, Ts...>*); template <class K> struct NT : decltype(nt_of((K*)0)) {};
template <class K> void swap_() {
  typedef typename K::V V; V0(K, a); K::any_state(a); V0(K, b); K::any_state(b); St s = K::obs(a), t = K::obs(b); bool ok = false;
  bool quiet = NT<K>::at(s.w) && NT<K>::at(t.w); for (int i = 0; i < 4; ++i) vsa_cnt[i] = 0;
  vsa_throw_mode = 1; vsa_alloc_mode(1); vsa_counting = 1;
  try { switch (vsa_choose(4)) { case 0: a.swap(b); break; case 1: swap(a, b); break; case 2: { using std::swap; swap(a, b); break; } case 3: boost::swap(a, b); break; }
    ok = true; CHECKM(vsa_thrown == 0, "no exception is swallowed"); }
  catch (Boom& e) { CHECK_SAME(e.id, vsa_last_thrown, "the bounded type's exception propagates"); } catch (std::bad_alloc&) {}
  vsa_throw_mode = 0; vsa_alloc_mode(0); vsa_counting = 0;
  CHECKM(vsa_cnt[0] == 0, "a type whose moves cannot throw is never copied"); if (quiet) CHECKM(ok, "swapping values whose moves cannot throw does not throw");
  K::valid(a); K::valid(b);
  if (ok) { K::same_content(K::obs(a), t, "after swap the first variant holds what the second held"); K::same_content(K::obs(b), s, "after swap the second variant holds what the first held"); vsa_cover("done");
    K::scramble(a); K::same_content(K::obs(b), s, "the swapped variants are independent"); }
}
template <class K> void self_swap() {
  V0(K, a); K::any_state(a); St s = K::obs(a); bool ok = false; typename K::V& r = a;
  vsa_throw_mode = 1; vsa_alloc_mode(1);
  try { if (vsa_choose(2)) a.swap(r); else swap(a, r); ok = true; } catch (Boom&) {} catch (std::bad_alloc&) {}
  vsa_throw_mode = 0; vsa_alloc_mode(0); K::valid(a);
  if (ok) { K::same_content(K::obs(a), s, "swapping a variant with itself changes nothing"); vsa_cover("done"); }
}
FOR_LISTS(swap, swap_)
FOR_LISTS(self_swap, self_swap)
