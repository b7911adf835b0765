//@std 2b
//@ignore LEAK-OBJECT LEAK-HEAP
//@cover all:done
// rvalue assignment of a bounded type under clang in C++23 mode, where the library compiles operator=(T&&) out
#define VSA_MAIN
#include "kit.h"
extern "C" void drv_rvalue_assign_2b() {
  boost::variant<N<0>, M<1> > v(VT<N<0> >::make(vsa_fresh())); M<1> x(VT<M<1> >::make(vsa_fresh()));
  vsa_counting = 1; v = std::move(x); vsa_counting = 0; vsa_cover("done");
  CHECKM(vsa_cnt[0] == 0, "a type whose moves cannot throw is never copied");
}
