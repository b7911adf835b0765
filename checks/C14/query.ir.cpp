//@std 17 11
//@std+ 14 20 2b
//@config l1: -DLS=1
//@config l2: -DLS=2
//@config l3: -DLS=3
//@config l7: -DLS=7
//@config l6: -DLS=6
//@config l5: -DLS=5
//@ignore LEAK-OBJECT LEAK-HEAP
//@cover all:done
#define VSA_MAIN
#include "kit.h"
#include <typeinfo>
template <class K> struct Q { typename K::V& v; int k; template <class T> void operator()(tag<T>) const {
  typedef typename K::V V; const V& cv = v; 
  CHECKM(cv.which() == k, "which() is the position of the current type"); CHECKM(&cv.type() == &typeid(T), "type() is the current type's type_info"); CHECKM(!cv.empty(), "empty() is false"); } };
// the index stored is known from what was assigned, not from the library's answers
template <class K> struct Put { typename K::V& v; template <class T> void operator()(tag<T>) const { v = VT<T>::make(vsa_fresh()); } };
template <class K> void query() { V0(K, v); int k = vsa_choose(K::n); Put<K> p = { v }; K::with(k, p); vsa_freeze(&v, sizeof(v)); Q<K> q = { v, k }; K::with(k, q); vsa_unfreeze(&v, sizeof(v)); K::valid(v); vsa_cover("done"); }
// after an earlier failure: agreement with the object actually owned
template <class K> void query_state() { V0(K, v); K::any_state(v); K::valid(v); int ty = -1; const void* p = 0; int n = vsa_owned(&v, sizeof(v), &ty, &p); int w = v.which(); Q<K> q = { v, w }; K::with(w, q); if (n) CHECKM(K::obs(v).id == ty, "the visited type is the owned one"); vsa_cover("done"); }
FOR_LISTS(query, query) FOR_LISTS(query_state, query_state)
