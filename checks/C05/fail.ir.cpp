//@std 17
//@std+ 14 20 2b
//@config l1: -DLS=1
//@config l2: -DLS=2
//@config l3: -DLS=3
//@config l7: -DLS=7
//@config l10: -DLS=10
//@config l8: -DLS=8
//@config l5: -DLS=5
//@config+ l4: -DLS=4
//@ignore LEAK-OBJECT LEAK-HEAP
//@cover any:ok any:boom any:kept all:end
#define VSA_MAIN
#include "kit.h"
static void begin() { vsa_throw_mode = 1; vsa_alloc_mode(1); vsa_thrown = 0; }
static void end_() { vsa_throw_mode = 0; vsa_alloc_mode(0); }
template <class T> tok default_tok() { return VT<T>::tracked ? vsa_sym(DEFAULTED + 100 * VT<T>::id) : 0; }
// is the content a default-constructed value of a nothrow default constructible bounded type?
struct IsDefault : boost::static_visitor<bool> { template <class T> bool operator()(const T& x) const { return std::is_nothrow_default_constructible<T>::value && vsa_same(VT<T>::val(x), default_tok<T>()); } };
template <class K> void after(const typename K::V& v, const St& s, int incoming) {
  K::valid(v); St t = K::obs(v);
  if (s.id == incoming) { CHECKM(t.w == s.w && t.id == s.id, "a failed assignment of the held type keeps that type"); vsa_cover("kept"); return; }
  bool kept = t.w == s.w && t.id == s.id && vsa_same(t.val, s.val);
  if (kept) { vsa_cover("kept"); return; }
  if (K::any_nothrow_default) {
    CHECKM(boost::apply_visitor(IsDefault(), v), "a failed assignment keeps the previous value or falls back to a default-constructed nothrow type");
    if (K::blank) CHECKM(t.id == VT<boost::blank>::id, "blank is preferred as the fallback");
    vsa_cover("fallback");
  } else vsa_fail("a failed assignment keeps the previous value");
}
enum { LV, CLV, RV };
template <class T, int F> struct cannot_throw { enum { value = F == RV ? std::is_nothrow_move_constructible<T>::value : std::is_nothrow_copy_constructible<T>::value }; };
template <class T> struct in_place { enum { value = 1 }; };
template <class K, int F> struct FromT { typename K::V& v; template <class T> void operator()(tag<T>) const {
  T x(VT<T>::make(vsa_fresh())); tok xv = VT<T>::val(x); St s = K::obs(v); bool differ = s.id != VT<T>::id; typename K::V* r = 0;
  begin();
  try { if (F == LV) r = &(v = x); else if (F == CLV) r = &(v = static_cast<const T&>(x)); else r = &(v = std::move(x));
    end_(); CHECKM(vsa_thrown == 0, "an assignment that raised an exception does not return normally"); CHECKM(r == &v, "assignment returns its left operand");
    K::valid(v); St t = K::obs(v); vsa_check(t.id == VT<T>::id && vsa_same(t.val, xv), "a completed assignment stores the new value"); vsa_cover("ok"); }
  catch (Boom& e) { end_(); CHECK_SAME(e.id, vsa_last_thrown, "the bounded type's own exception reaches the caller"); CHECKM(vsa_thrown == 1, "only one exception was raised");
    CHECKM(!(differ && cannot_throw<T, F>::value && !K::template is_wrapped<T>::value), "assigning a value that cannot throw on construction does not throw"); after<K>(v, s, VT<T>::id); vsa_cover("boom"); }
  catch (std::bad_alloc&) { end_(); CHECKM(!(differ && cannot_throw<T, F>::value && !K::template is_wrapped<T>::value), "assigning a value that cannot throw on construction does not throw"); after<K>(v, s, VT<T>::id); vsa_cover("bad_alloc"); }
  catch (...) { vsa_fail("a foreign exception reaches the caller"); } } };
template <class K> void from_value() { V0(K, v); K::any_state(v); int k = vsa_choose(K::n);
#ifdef VSA_NO_RVALUE_ASSIGN
  int h = vsa_choose(2);
#else
  int h = vsa_choose(3);
#endif
  switch (h) { case 0: { FromT<K, LV> f = { v }; K::with(k, f); break; } case 1: { FromT<K, CLV> f = { v }; K::with(k, f); break; } case 2: { FromT<K, RV> f = { v }; K::with(k, f); break; } }
  K::valid(v); vsa_cover("end"); }
struct CanThrow : boost::static_visitor<bool> { bool mv; template <class T> bool operator()(const T&) const { return mv ? !std::is_nothrow_move_constructible<T>::value && !std::is_nothrow_copy_constructible<T>::value : !std::is_nothrow_copy_constructible<T>::value; } };
template <class K> void from_variant() {
  typedef typename K::V V; V0(K, v); K::any_state(v); V0(K, o); K::any_state(o); St s = K::obs(v), q = K::obs(o); bool mv = vsa_choose(2);
  CanThrow ct; ct.mv = mv; bool can = boost::apply_visitor(ct, o) || K::wrapped_id(q.id);
  begin();
  try { if (mv) v = std::move(o); else v = static_cast<const V&>(o);
    end_(); CHECKM(vsa_thrown == 0, "an assignment that raised an exception does not return normally"); K::valid(v); K::same_content(K::obs(v), q, "a completed assignment stores the new value"); vsa_cover("ok"); }
  catch (Boom& e) { end_(); CHECK_SAME(e.id, vsa_last_thrown, "the bounded type's own exception reaches the caller"); CHECKM(s.w == q.w || can, "assigning a value that cannot throw on construction does not throw"); after<K>(v, s, q.id); vsa_cover("boom"); }
  catch (std::bad_alloc&) { end_(); CHECKM(s.w == q.w || can, "assigning a value that cannot throw on construction does not throw"); after<K>(v, s, q.id); }
  catch (...) { vsa_fail("a foreign exception reaches the caller"); }
  K::valid(o); K::valid(v); vsa_cover("end");
}
FOR_LISTS(from_value, from_value)
FOR_LISTS(from_variant, from_variant)
