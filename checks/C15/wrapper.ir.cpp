//@std 17 11
//@std+ 14 20 2b
//@cover all:done any:threw any:oom
#define VSA_MAIN
#include "kit.h"
using boost::recursive_wrapper;
static void on() { vsa_throw_mode = 1; vsa_alloc_mode(1); } static void off() { vsa_throw_mode = 0; vsa_alloc_mode(0); }
template <class T> T mk() { return T(typename T::mk(), vsa_fresh()); }
template <class T> void own(const recursive_wrapper<T>& w) { const T* p = w.get_pointer(); CHECKM(p != 0, "a wrapper always owns an object"); CHECKM(&w.get() == p, "get refers to the owned object"); (void)w.get().t(); CHECKM(!vsa_inside(p, &w, sizeof w), "the object is held on the heap"); }
template <class T> void own2(const recursive_wrapper<T>& a, const recursive_wrapper<T>& b) { own(a); own(b); CHECKM(a.get_pointer() != b.get_pointer(), "two wrappers never share an object"); }
template <class T> struct Ops {
  typedef recursive_wrapper<T> W;
  static void single() {
    T ta(mk<T>()), tb(mk<T>()); tok xa = ta.t(), xb = tb.t(); W a(ta), b(tb); own2(a, b); CHECK_SAME(a.get().t(), xa, "construction stores the value"); CHECK_SAME(b.get().t(), xb, "construction stores the value"); CHECK_SAME(ta.t(), xa, "an lvalue is not modified");
    int how = vsa_choose(10); bool ok = false;
    try { on();
      switch (how) {
        case 0: { const W& r = b; vsa_freeze(&b, sizeof b); W c(r); off(); own2(c, b); CHECK_SAME(c.get().t(), xb, "copy construction copies the value"); vsa_unfreeze(&b, sizeof b); vsa_settok(&c.get(), T::id, vsa_fresh()); CHECK_SAME(b.get().t(), xb, "copies are independent"); break; }
        case 1: { W c(std::move(b)); off(); own2(c, b); CHECK_SAME(c.get().t(), xb, "move construction transfers the value"); break; }
        case 2: { const W& r = b; vsa_freeze(&b, sizeof b); W& q = (a = r); off(); CHECKM(&q == &a, "returns its left operand"); vsa_unfreeze(&b, sizeof b); CHECK_SAME(a.get().t(), xb, "copy assignment copies the value"); CHECK_SAME(b.get().t(), xb, "and leaves the source"); break; }
        case 3: { W& q = (a = std::move(b)); off(); CHECKM(&q == &a, "returns its left operand"); CHECK_SAME(a.get().t(), xb, "move assignment transfers the value"); break; }
        case 4: { const T& r = tb; W& q = (a = r); off(); CHECKM(&q == &a, "returns its left operand"); CHECK_SAME(a.get().t(), xb, "assignment stores the value"); CHECK_SAME(tb.t(), xb, "an lvalue is not modified"); break; }
        case 5: { W& q = (a = std::move(tb)); off(); CHECKM(&q == &a, "returns its left operand"); CHECK_SAME(a.get().t(), xb, "assignment stores the value"); break; }
        case 6: { const T *pa = a.get_pointer(), *pb = b.get_pointer(); a.swap(b); off(); CHECK_SAME(a.get().t(), xb, "swap exchanges"); CHECK_SAME(b.get().t(), xa, "swap exchanges"); CHECKM(a.get_pointer() == pb && b.get_pointer() == pa, "swap does not move the objects"); break; }
        case 7: { swap(a, b); off(); CHECK_SAME(a.get().t(), xb, "swap exchanges"); CHECK_SAME(b.get().t(), xa, "swap exchanges"); break; }
        case 8: { W c(std::move(tb)); off(); own2(c, b); CHECK_SAME(c.get().t(), xb, "construction stores the value"); break; }
        case 9: { W& r = a; a = r; off(); CHECK_SAME(a.get().t(), xa, "self-assignment changes nothing"); break; }
      }
      ok = true; vsa_cover("done");
    } catch (Boom&) { off(); vsa_cover("threw"); } catch (std::bad_alloc&) { off(); vsa_cover("oom"); }
    if (!ok && (how == 0 || how == 2)) vsa_unfreeze(&b, sizeof b);
    own2(a, b);
  }
  static void history() {
    W a(mk<T>()), b(mk<T>()); on();
    while (vsa_loop_forget()) {
      own2(a, b);
      try { switch (vsa_choose(9)) { case 0: a = b; break; case 1: a = std::move(b); break; case 2: a.swap(b); break; case 3: { W c(a); own2(c, a); b = c; break; } case 4: { W c(std::move(a)); own2(c, a); b = std::move(c); break; } case 5: { T x(mk<T>()); a = x; break; } case 6: a = mk<T>(); break; case 7: { W c(std::move(b)); swap(c, a); break; } case 8: b = a.get(); break; } vsa_cover("done"); }
      catch (Boom&) { vsa_cover("threw"); } catch (std::bad_alloc&) { vsa_cover("oom"); }
      vsa_thrown = 0; vsa_last_thrown = 0; own2(a, b);
    }
    off(); } };
extern "C" void drv_single_X() { Ops<X<0> >::single(); } extern "C" void drv_single_M() { Ops<M<0> >::single(); } extern "C" void drv_single_CO() { Ops<CO<0> >::single(); } extern "C" void drv_single_N() { Ops<N<0> >::single(); }
extern "C" void drv_history_X() { Ops<X<0> >::history(); } extern "C" void drv_history_M() { Ops<M<0> >::history(); } extern "C" void drv_history_CO() { Ops<CO<0> >::history(); } extern "C" void drv_history_C() { Ops<C<0> >::history(); }
extern "C" void drv_default() { vsa_thrown = 0; on(); try { recursive_wrapper<XD<0> > w; off(); own(w); CHECK_SAME(w.get().t(), vsa_sym(DEFAULTED + 100 * XD<0>::id), "default construction default-constructs the value"); vsa_cover("done"); } catch (Boom&) { off(); vsa_cover("threw"); } catch (std::bad_alloc&) { off(); vsa_cover("oom"); } }
extern "C" void drv_moveonly() { typedef recursive_wrapper<MO<0> > W; W a(mk<MO<0> >()), b(mk<MO<0> >()); tok xa = a.get().t(), xb = b.get().t(); switch (vsa_choose(4)) { case 0: { W c(std::move(a)); own2(c, a); CHECK_SAME(c.get().t(), xa, "moves"); break; } case 1: a = std::move(b); CHECK_SAME(a.get().t(), xb, "moves"); break; case 2: a = mk<MO<0> >(); break; case 3: swap(a, b); CHECK_SAME(b.get().t(), xa, "swaps"); break; } own2(a, b); vsa_cover("done"); }
