//@std 17
//@std+ 14 20 2b
//@config l1: -DLS=1
//@config l2: -DLS=2
//@config l3: -DLS=3
//@config l7: -DLS=7
//@config l10: -DLS=10
//@config l8: -DLS=8
//@config l5: -DLS=5
//@config+ l4: -DLS=4
//@ignore LEAK-OBJECT LEAK-HEAP
//@cover all:done
#define VSA_MAIN
#include "kit.h"
static void begin() { vsa_throw_mode = 1; vsa_alloc_mode(1); vsa_counting = 1; for (int i = 0; i < 4; ++i) vsa_cnt[i] = 0; }
static void end_() { vsa_throw_mode = 0; vsa_alloc_mode(0); vsa_counting = 0; }
template <class K> void moved(const typename K::V& a, const typename K::V& b, const St& s) {
  K::valid(a); K::valid(b);
  K::same_content(K::obs(b), s, "the destination holds the type and value the source held");
  CHECKM(a.which() == s.w && K::obs(a).id == s.id, "the source keeps its bounded type");
  CHECKM(vsa_cnt[0] == 0, "a type whose moves cannot throw is never copied");
}
template <class K> void move_construct() {
  typedef typename K::V V; V0(K, a); K::any_state(a); St s = K::obs(a);
  begin();
  try { V b(std::move(a)); end_(); moved<K>(a, b, s); vsa_cover("done"); K::scramble(b); } catch (Boom&) { end_(); CHECKM(vsa_cnt[0] == 0, "a type whose moves cannot throw is never copied"); } catch (std::bad_alloc&) { end_(); }
  K::valid(a);
  { V c(a); a = c; } K::valid(a);    // the moved-from variant remains usable
}
template <class K> void move_assign() {
  typedef typename K::V V; V0(K, a); K::any_state(a); V0(K, b); K::any_state(b); St s = K::obs(a); bool ok = false;
  begin();
  try { V& r = (b = std::move(a)); ok = true; CHECKM(&r == &b, "assignment returns its left operand"); } catch (Boom&) {} catch (std::bad_alloc&) {}
  end_(); CHECKM(vsa_cnt[0] == 0, "a type whose moves cannot throw is never copied");
  if (ok) { moved<K>(a, b, s); vsa_cover("done"); }
  else { K::valid(a); K::valid(b); CHECKM(a.which() == s.w, "the source keeps its bounded type"); }
  K::scramble(b); { V c(b); a = std::move(c); } K::valid(a); K::same_content(K::obs(a), K::obs(b), "the moved-from variant can be assigned to");
}
// rvalue of a bounded type
template <class K> struct AR { typename K::V& v; template <class T> void operator()(tag<T>) const {
  typedef typename K::V V; tok t = vsa_fresh(); T x(VT<T>::make(t)); tok tv = VT<T>::val(x); 
#ifdef VSA_NO_RVALUE_ASSIGN
  int k = 1;
#else
  int k = vsa_choose(2);
#endif
  bool ok = false;
  begin();
  try {
    if (k == 0) { v = std::move(x); end_(); K::valid(v); St s = K::obs(v); vsa_check(s.id == VT<T>::id && vsa_same(s.val, tv), "assignment from an rvalue stores its type and value"); }
    else { V w(std::move(x)); end_(); K::valid(w); St s = K::obs(w); vsa_check(s.id == VT<T>::id && vsa_same(s.val, tv), "construction from an rvalue stores its type and value"); }
    ok = true;
  } catch (Boom&) { end_(); } catch (std::bad_alloc&) { end_(); }
  CHECKM(vsa_cnt[0] == 0, "a type whose moves cannot throw is never copied");
  K::valid(v); if (ok) vsa_cover("done"); } };
template <class K> void from_rvalue() { V0(K, v); K::any_state(v); int k = vsa_choose(K::n); AR<K> f = { v }; K::with(k, f); K::valid(v); }
FOR_LISTS(move_construct, move_construct)
FOR_LISTS(move_assign, move_assign)
FOR_LISTS(from_rvalue, from_rvalue)
// a variant over fewer types, moved into a wider one
template <class K, class F> void from_foreign() {
  typedef typename K::V V; typedef typename F::V S; V0(F, s); F::any_state(s); St s0 = F::obs(s); V0(K, v); bool ok = false;
#ifdef VSA_NO_RVALUE_ASSIGN
  int how = 0;
#else
  int how = vsa_choose(2); if (how) K::any_state(v);
#endif
  begin();
  try {
    if (how) { v = std::move(s); end_(); K::valid(v); St n = K::obs(v); vsa_check(n.id == s0.id && vsa_same(n.val, s0.val), "moving another variant in transfers its type and value"); }
    else { V w(std::move(s)); end_(); K::valid(w); St n = K::obs(w); vsa_check(n.id == s0.id && vsa_same(n.val, s0.val), "moving another variant in transfers its type and value"); }
    ok = true;
  } catch (Boom&) { end_(); } catch (std::bad_alloc&) { end_(); }
  CHECKM(vsa_cnt[0] == 0, "a type whose moves cannot throw is never copied");
  F::valid(s); K::valid(v); CHECKM(s.which() == s0.w, "the source keeps its bounded type"); if (ok) vsa_cover("done");
}
#if LS == 0
extern "C" void drv_foreign_B() { from_foreign<KB, Kit<M<2>, X<0>, N<1> > >(); }
extern "C" void drv_foreign_B2() { from_foreign<KB, Kit<N<1>, M<2> > >(); }
#elif LS == 2
extern "C" void drv_foreign_F() { from_foreign<KF, Kit<M<2>, X<1> > >(); }
#elif LS == 3
extern "C" void drv_foreign_J() { from_foreign<KJ, Kit<A<1>, RX5, M<0> > >(); }
#endif
