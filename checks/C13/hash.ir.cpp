//@std 17 11
//@std+ 14 20 2b
//@config l1: -DLS=1
//@config l2: -DLS=2
//@config l3: -DLS=3
//@config l7: -DLS=7
//@config l10: -DLS=10
//@config l8: -DLS=8
//@config l5: -DLS=5
//@ignore LEAK-OBJECT LEAK-HEAP
//@cover all:same all:other
#define VSA_MAIN
#include "kit.h"
#include <boost/functional/hash.hpp>
#include <functional>
namespace boost { inline std::size_t hash_value(const blank&) { return 77; } }
template <class V> static tok h(const V& v, int form) { switch (form) { case 0: return hash_value(v); case 1: return boost::hash<V>()(v); default: return std::hash<V>()(v); } }
template <class K> struct Twin { typename K::V& w; const St& s; template <class T> void operator()(tag<T>) const { w = VT<T>::make(s.val); } };
template <class K> void hash_() {
  typedef typename K::V V; V0(K, a); K::any_state(a); St s = K::obs(a); V0(K, w); Twin<K> t = { w, s }; K::with_which(s.w, t); K::same_content(K::obs(w), s, "twin");
  vsa_freeze(&a, sizeof(a)); int f = vsa_choose(3); tok x = h<V>(a, f); vsa_unfreeze(&a, sizeof(a));
  CHECK_SAME(x, h<V>(w, f), "variants with the same type and value hash equal whatever their histories"); V c(a); CHECK_SAME(x, h<V>(c, f), "a copy hashes equal"); CHECK_SAME(x, h<V>(a, f), "hashing twice gives the same result");
  vsa_cover("same");
  V0(K, b); K::any_state(b); St q = K::obs(b);
  if (q.w != s.w || (!vsa_same(q.val, s.val) && q.id != 2)) { CHECKM(!vsa_same(x, h<V>(b, f)), "the result depends on both the type and the content's hash"); vsa_cover("other"); }
  K::same_content(K::obs(a), s, "hashing leaves the variant alone");
}
FOR_LISTS(hash, hash_)
// the same content hash under two different indices must be told apart by the index
template <int I> struct HT { VSA_BODY_NOHASH(HT, 2300 + I, 8, 8) VSA_COPY_N(HT, 2300 + I) VSA_MOVE_N(HT, 2300 + I) VSA_CASG_N(HT, 2300 + I) VSA_MASG_N(HT, 2300 + I) friend std::size_t hash_value(const HT& a) { return vsa_term1(OP_HASH, a.t()); } };
extern "C" void drv_index() { typedef boost::variant<HT<0>, HT<1>, HT<2> > V; tok t = vsa_fresh(); V a(VT<HT<0> >::make(t)), b(VT<HT<1> >::make(t)), c(VT<HT<2> >::make(t)), d(VT<HT<1> >::make(t)); int f = vsa_choose(3);
  tok x = h<V>(a, f), y = h<V>(b, f), z = h<V>(c, f); CHECKM(!vsa_same(x, y) && !vsa_same(y, z) && !vsa_same(x, z), "the index enters the result"); CHECK_SAME(y, h<V>(d, f), "same type and value, same hash");
  V e(VT<HT<1> >::make(vsa_fresh())); CHECKM(!vsa_same(y, h<V>(e, f)), "the content's hash enters the result"); vsa_cover("same"); vsa_cover("other"); }
// nested and recursive contents hash through
extern "C" void drv_nested() { typedef boost::variant<HT<0>, HT<1> > I; typedef boost::variant<HT<2>, I> V; tok t = vsa_fresh(); I i(VT<HT<1> >::make(t)), j(VT<HT<0> >::make(t)); V a(i), b(i), c(j); int f = vsa_choose(3);
  CHECK_SAME(h<V>(a, f), h<V>(b, f), "equal nested contents hash equal"); CHECKM(!vsa_same(h<V>(a, f), h<V>(c, f)), "nested content enters the result"); vsa_cover("same"); vsa_cover("other"); }

// a move-only content is hashed in place
#ifndef VSA_NO_RVALUE_ASSIGN
template <class K> void hash_mo() { typedef typename K::V V; V0(K, a); K::any_type(a); St s = K::obs(a); V0(K, w); Twin<K> t = { w, s }; K::with_which(s.w, t); vsa_freeze(&a, sizeof a); int f = vsa_choose(3); tok x = h<V>(a, f); vsa_unfreeze(&a, sizeof a);
  CHECK_SAME(x, h<V>(w, f), "variants with the same type and value hash equal whatever their histories"); K::same_content(K::obs(a), s, "hashing leaves the variant alone"); vsa_cover("same"); vsa_cover("other"); }
extern "C" void drv_hash_moveonly() { hash_mo<KA6>(); } extern "C" void drv_hash_moveonly_w() { hash_mo<KC6>(); }
#endif
