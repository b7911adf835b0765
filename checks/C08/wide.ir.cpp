//@std 17
//@std+ 11 14 20 2b
//@config w1: -DVSA_W=1
//@config w2: -DVSA_W=2
//@config u3: -DVSA_W=3 -DBOOST_VARIANT_VISITATION_UNROLLING_LIMIT=3
//@ignore LEAK-OBJECT LEAK-HEAP
//@cover all:done
#define VSA_MAIN
#include "visitors.h"
#include "wide.h"
#ifndef VSA_W
#define VSA_W 0
#endif
#define RET(r, s) CHECK_SAME(r, vsa_term1(OP_CALL, s.val), "apply_visitor returns what the visitor returned")
// the content's type and value are known from what was stored, not from the library's own answer
template <class K> struct Check { template <class T> void operator()(tag<T>) const {
  typedef typename K::V V; tok t = vsa_fresh(); T x(VT<T>::make(t)); V v(x); const V& cv = v; K::valid(v);
  int ty = -1; const void* p = 0; int n = vsa_owned(&v, sizeof(v), &ty, &p); CHECKM(n == 1 && ty == VT<T>::id, "the stored object is of the type it was built from");
  St s = { v.which(), VT<T>::id, 1, t, p };
  switch (vsa_choose(4)) {
    case 0: { Rec r; tok q = boost::apply_visitor(r, v); called<K>(r, s, CAT_L); RET(q, s); break; }
    case 1: { Rec r; tok q = boost::apply_visitor(r, cv); called<K>(r, s, CAT_CL); RET(q, s); break; }
    case 2: { Rec r; tok q = boost::apply_visitor(r, std::move(v)); called<K>(r, s, CAT_R); RET(q, s); break; }
    case 3: { RecRef r; int& i = boost::apply_visitor(r, v); called<K>(r, s, CAT_L); CHECKM(&i == &r.slot, "a reference result is returned as that reference"); break; }
  }
  vsa_cover("done"); } };
template <class K> void wide() { Check<K> c; K::with(vsa_choose(K::n), c); }
#if VSA_W == 0
extern "C" void drv_w1() { wide<NW<1> >(); } extern "C" void drv_w2() { wide<NW<2> >(); } extern "C" void drv_w19() { wide<NW<19> >(); } extern "C" void drv_m20() { wide<MW<20> >(); }
#elif VSA_W == 1
extern "C" void drv_w21() { wide<NW<21> >(); } extern "C" void drv_m24() { wide<MW<24> >(); }
#elif VSA_W == 2
extern "C" void drv_m41() { wide<MW<41> >(); }
#elif VSA_W == 3
extern "C" void drv_u1() { wide<MW<1> >(); } extern "C" void drv_u3() { wide<MW<3> >(); } extern "C" void drv_u4() { wide<MW<4> >(); } extern "C" void drv_u11() { wide<MW<11> >(); }
#endif
