//@std 17
//@no-default-config
//@config w130: -DVSA_C=130
//@config min126: -DVSA_C=126 -DBOOST_VARIANT_MINIMIZE_SIZE
//@config min127: -DVSA_C=127 -DBOOST_VARIANT_MINIMIZE_SIZE
//@config min128: -DVSA_C=128 -DBOOST_VARIANT_MINIMIZE_SIZE
//@config min130: -DVSA_C=130 -DBOOST_VARIANT_MINIMIZE_SIZE
//@config min129: -DVSA_C=129 -DBOOST_VARIANT_MINIMIZE_SIZE -DBOOST_VARIANT_VISITATION_UNROLLING_LIMIT=5
//@cover all:done any:failed
// List sizes around the narrow discriminator of BOOST_VARIANT_MINIMIZE_SIZE: contents at boundary indices, held directly
// and after a failed assignment (negative discriminator), observed, copied, overwritten and compared.
#define VSA_MAIN
#include "wide.h"
typedef MW<VSA_C> K; typedef K::V V;
template <class F> void with(int k, F f) { switch (k) {
#define AT(i) case i: f(tag<K::at<(i)>::type>()); break;
  AT(0) AT(19) AT(20) AT(VSA_C - 3) AT(VSA_C - 2) AT(VSA_C - 1) } }
static int pick() { static const int at[] = { 0, 19, 20, VSA_C - 3, VSA_C - 2, VSA_C - 1 }; return at[vsa_choose(6)]; }
struct Put { V& v; tok t; template <class T> void operator()(tag<T>) const { const T x(VT<T>::make(t)); v = x; } };
struct Id { const V& v; int k; tok t; template <class T> void operator()(tag<T>) const { St s = K::obs(v); CHECKM(s.w == k && s.id == VT<T>::id && vsa_same(s.val, t), "the variant holds the value stored at that index"); CHECKM((const void*)boost::get<T>(&v) == s.addr, "get yields the stored object"); } };
static void is(const V& v, int k, tok t) { K::valid(v); Id f = { v, k, t }; with(k, f); }
extern "C" void drv_huge() {
  V0_(K, a); V0_(K, b); tok t = vsa_fresh(), u = vsa_fresh(); int i = pick(), j = pick();
  Put p = { a, t }, q = { b, u }; with(i, p); with(j, q);
  if (vsa_choose(2)) { vsa_throw_mode = 1; bool ok = false; tok x = vsa_fresh(); try { Put r = { a, x }; with(0, r); ok = true; } catch (Boom&) { vsa_cover("failed"); } vsa_throw_mode = 0; if (ok || i == 0) vsa_stop(); }
  is(a, i, t); is(b, j, u);
  switch (vsa_choose(3)) {
    case 0: { V c(a); is(c, i, t); is(a, i, t); break; }
    case 1: { Put r = { a, u }; with(j, r); is(a, j, u); break; }
    case 2: { bool eq = i == j && vsa_rel(REL_EQ, t, u), lt = i == j ? vsa_rel(REL_LT, t, u) != 0 : i < j; CHECKM((a == b) == eq && (a < b) == lt, "comparison is by index, then content"); break; }
  }
  vsa_cover("done"); }
