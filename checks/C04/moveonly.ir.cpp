//@std 17
//@std+ 11 14 20
//@ignore LEAK-OBJECT LEAK-HEAP
//@cover all:done
#define VSA_MAIN
#include "kit.h"
typedef Kit<MO<0>, MO<1>, N<2> > KM; typedef Kit<boost::blank, MO<1>, M<2> > KN; typedef Kit<int, MO<1>, boost::recursive_wrapper<MO<2> > > KO; typedef Kit<MO<0> > KP;
template <class K> void mo_construct() { typedef typename K::V V; V0(K, a); K::any_type(a); St s = K::obs(a); vsa_counting = 1; vsa_cnt[0] = 0;
  V b(std::move(a)); vsa_counting = 0; K::valid(a); K::valid(b); K::same_content(K::obs(b), s, "the destination holds what the source held"); CHECKM(a.which() == s.w, "the source keeps its bounded type"); CHECKM(vsa_cnt[0] == 0, "never copied"); vsa_cover("done"); }
template <class K> void mo_assign() { typedef typename K::V V; V0(K, a); K::any_type(a); V0(K, b); K::any_type(b); St s = K::obs(a); vsa_counting = 1; vsa_cnt[0] = 0;
  b = std::move(a); vsa_counting = 0; K::valid(a); K::valid(b); K::same_content(K::obs(b), s, "the destination holds what the source held"); CHECKM(a.which() == s.w, "the source keeps its bounded type"); CHECKM(vsa_cnt[0] == 0, "never copied");
  K::any_type(a); K::valid(a); vsa_cover("done"); }
template <class K> void mo_swap() { typedef typename K::V V; V0(K, a); K::any_type(a); V0(K, b); K::any_type(b); St s = K::obs(a), t = K::obs(b);
  if (vsa_choose(2)) a.swap(b); else swap(a, b); K::valid(a); K::valid(b); K::same_content(K::obs(b), s, "swap exchanges"); K::same_content(K::obs(a), t, "swap exchanges"); vsa_cover("done"); }
#define ALL(n, f) extern "C" void drv_##n##_M() { f<KM>(); } extern "C" void drv_##n##_N() { f<KN>(); } extern "C" void drv_##n##_O() { f<KO>(); } extern "C" void drv_##n##_P() { f<KP>(); }
ALL(mo_construct, mo_construct) ALL(mo_assign, mo_assign) ALL(mo_swap, mo_swap)
// a move-only content moved in from a variant over fewer types
typedef Kit<MO<1>, N<2> > KFM;
extern "C" void drv_mo_foreign() { V0_(KFM, s); KFM::any_type(s); St s0 = KFM::obs(s); V0_(KM, v); KM::any_type(v);
  if (vsa_choose(2)) { v = std::move(s); KM::valid(v); St n = KM::obs(v); vsa_check(n.id == s0.id && vsa_same(n.val, s0.val), "moving another variant in transfers its content"); }
  else { KM::V w(std::move(s)); KM::valid(w); St n = KM::obs(w); vsa_check(n.id == s0.id && vsa_same(n.val, s0.val), "moving another variant in transfers its content"); }
  KFM::valid(s); CHECKM(s.which() == s0.w, "the source keeps its bounded type"); KM::valid(v); vsa_cover("done"); }
