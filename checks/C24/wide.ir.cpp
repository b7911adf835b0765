//@std 17
//@no-default-config
//@config w23: -DVSA_C=23
//@config u7: -DVSA_C=40 -DBOOST_VARIANT_VISITATION_UNROLLING_LIMIT=7
//@config min26: -DVSA_C=26 -DBOOST_VARIANT_MINIMIZE_SIZE
//@config w43: -DVSA_C=43
//@config u19: -DVSA_C=58 -DBOOST_VARIANT_VISITATION_UNROLLING_LIMIT=19
//@config min41: -DVSA_C=41 -DBOOST_VARIANT_MINIMIZE_SIZE
//@cover all:done any:failed
// List sizes around the unrolling step: contents at every boundary index, held directly and after a failed assignment
// (heap backup), then copied, assigned, swapped and compared.
#define VSA_MAIN
#include "wide.h"
typedef MW<VSA_C> K; typedef K::V V;
static int pick() { static const int at[] = { 0, 1, 2, 6, 7, 18, 19, 20, 21, 39, 40, 41, 42, VSA_C / 2, VSA_C - 4, VSA_C - 3, VSA_C - 2, VSA_C - 1 }; int k = vsa_choose(18); if (at[k] >= VSA_C) vsa_stop(); return at[k]; }
struct Put { V& v; tok t; template <class T> void operator()(tag<T>) const { const T x(VT<T>::make(t)); v = x; } };
struct Id { int& id; template <class T> void operator()(tag<T>) const { id = VT<T>::id; } };
static void is(const V& v, int k, tok t, const char* m) { int id = -1; Id f = { id }; K::with(k, f); K::valid(v); St s = K::obs(v); vsa_check(s.w == k && s.id == id && vsa_same(s.val, t), m); }
extern "C" void drv_wide() {
  V0_(K, a); V0_(K, b); tok t = vsa_fresh(), u = vsa_fresh(); int i = pick(), j = pick();
  Put p = { a, t }, q = { b, u }; K::with(i, p); K::with(j, q);
  if (vsa_choose(2)) { vsa_throw_mode = 1; bool ok = false; tok x = vsa_fresh(); try { Put r = { a, x }; K::with(0, r); ok = true; } catch (Boom&) { vsa_cover("failed"); } vsa_throw_mode = 0; if (ok || i == 0) vsa_stop(); }
  is(a, i, t, "the variant holds the value stored at that index");
  switch (vsa_choose(4)) {
    case 0: a = b; is(a, j, u, "assignment gives the other variant's type and value"); is(b, j, u, "the source of a copy is unchanged"); break;
    case 1: b = a; is(b, i, t, "assignment gives the other variant's type and value"); is(a, i, t, "the source of a copy is unchanged"); break;
    case 2: a.swap(b); is(a, j, u, "swap exchanges the values"); is(b, i, t, "swap exchanges the values"); break;
    case 3: { bool eq = i == j && vsa_rel(REL_EQ, t, u), lt = i == j ? vsa_rel(REL_LT, t, u) != 0 : i < j; CHECKM((a == b) == eq && (a < b) == lt, "comparison is by index, then content"); break; }
  }
  vsa_cover("done"); }
