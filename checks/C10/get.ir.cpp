//@std 17 11
//@std+ 14 20 2b
//@config l1: -DLS=1
//@config l2: -DLS=2
//@config l3: -DLS=3
//@config l7: -DLS=7
//@config l10: -DLS=10
//@config l8: -DLS=8
//@config l6: -DLS=6
//@config l5: -DLS=5
//@ignore LEAK-OBJECT LEAK-HEAP
//@cover all:hit all:miss all:foreign
#define VSA_MAIN
#include "kit.h"
struct Foreign { int x; };
template <class T> static void is_ptr(T*) {}
#define HIT "get yields the stored object when the content is a U"
#define MISS "get yields null when the content is not a U"
#define PTR(p) CHECKM(m ? (const void*)(p) == s.addr : (p) == 0, m ? HIT : MISS)
#define REF(e) { bool threw = false; const void* a = 0; try { auto&& r = (e); a = std::addressof(r); } catch (boost::bad_get&) { threw = true; } if (m) { CHECKM(!threw && a == s.addr, HIT); } else CHECKM(threw, "a reference get throws bad_get when the content is not a U"); }
template <class K> struct Try { typename K::V& v; template <class U> void operator()(tag<U>) const {
  typedef typename K::V V; const V& cv = v; St s = K::obs(v); bool m = s.id == VT<U>::id;
  vsa_freeze(&v, sizeof(v));
  switch (vsa_choose(11)) {
    case 0: { U* p = boost::get<U>(&v); PTR(p); break; }
    case 1: { const U* p = boost::get<U>(&cv); PTR(p); break; }
    case 2: { U* p = boost::strict_get<U>(&v); PTR(p); U* q = boost::relaxed_get<U>(&v); PTR(q); break; }
    case 3: { const U* p = boost::strict_get<U>(&cv); PTR(p); const U* q = boost::relaxed_get<U>(&cv); PTR(q); break; }
    case 4: { const U* p = boost::get<const U>(&v); PTR(p); break; }
    case 5: REF(boost::get<U>(v)); break;
    case 6: REF(boost::get<U>(cv)); break;
    case 7: REF(boost::strict_get<U>(v)); REF(boost::strict_get<U>(cv)); break;
    case 8: REF(boost::relaxed_get<U>(v)); REF(boost::relaxed_get<U>(cv)); break;
    case 9: REF(boost::get<U>(std::move(v))); REF(boost::relaxed_get<U>(std::move(v))); REF(boost::strict_get<U>(std::move(v))); break;
    case 10: { V* n = 0; const V* cn = 0; CHECKM(boost::get<U>(n) == 0 && boost::get<U>(cn) == 0 && boost::relaxed_get<U>(n) == 0 && boost::relaxed_get<U>(cn) == 0 && boost::strict_get<U>(n) == 0 && boost::strict_get<U>(cn) == 0, "a null variant pointer yields null"); break; }
  }
  vsa_unfreeze(&v, sizeof(v));
  K::same_content(K::obs(v), s, "get leaves the variant alone"); if (m) vsa_cover("hit"); else vsa_cover("miss");
  static_assert(std::is_same<decltype(boost::get<U>(v)), U&>::value && std::is_same<decltype(boost::get<U>(cv)), const U&>::value && std::is_same<decltype(boost::get<U>(std::move(v))), U&&>::value && std::is_same<decltype(boost::get<U>(&v)), U*>::value && std::is_same<decltype(boost::get<U>(&cv)), const U*>::value, "result types of get");
} };
template <class K> void get_() { V0(K, v); K::any_state(v); Try<K> t = { v }; K::with(vsa_choose(K::n), t);
  typedef typename K::V V; const V& cv = v; St s = K::obs(v); bool m = false; vsa_freeze(&v, sizeof(v));
  switch (vsa_choose(4)) { case 0: { Foreign* p = boost::relaxed_get<Foreign>(&v); PTR(p); break; } case 1: { const Foreign* p = boost::relaxed_get<Foreign>(&cv); PTR(p); break; } case 2: REF(boost::relaxed_get<Foreign>(v)); break; case 3: REF(boost::relaxed_get<Foreign>(cv)); break; }
  vsa_unfreeze(&v, sizeof(v)); vsa_cover("foreign"); }
#if LS == 8
#undef FOR_LISTS
#define FOR_LISTS(NAME, FN) extern "C" void drv_##NAME##_T() { FN<KT8>(); }
#endif
FOR_LISTS(get, get_)
