//@std 17
//@std+ 11 14 20 2b
//@cover all:done
#define VSA_MAIN
#include "kit.h"
#include "wide.h"
#include <typeinfo>
template <class K> struct Put { typename K::V& v; int k; template <class T> void operator()(tag<T>) const { v = VT<T>::make(vsa_fresh()); CHECKM(v.which() == k && &v.type() == &typeid(T) && !v.empty(), "which(), type() and empty() describe the content"); T x(VT<T>::make(vsa_fresh())); typename K::V w(x); CHECKM(w.which() == k && &w.type() == &typeid(T), "which() and type() describe the content"); } };
template <class K> void wide() { V0(K, v); int k = vsa_choose(K::n); Put<K> p = { v, k }; K::with(k, p); vsa_cover("done"); }
extern "C" void drv_w25() { wide<NW<25> >(); } extern "C" void drv_m33() { wide<MW<33> >(); }
