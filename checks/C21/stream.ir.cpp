//@std 17
//@std+ 11 14 20 2b
//@config l1: -DLS=1
//@config l2: -DLS=2
//@config l3: -DLS=3
//@config l7: -DLS=7
//@config l10: -DLS=10
//@config l6: -DLS=6
//@config wide: -DVSA_CH=wchar_t -DLS=2
//@ignore LEAK-OBJECT LEAK-HEAP
//@cover all:done
#define VSA_MAIN
#include "kit.h"
#include <ostream>
#include <boost/blank.hpp>
#ifndef VSA_CH
#define VSA_CH char
#endif
typedef std::basic_ostream<VSA_CH> OS;
// the stream is opaque: only its identity matters; what is inserted is logged by the bounded types' own operator<<
struct Log { int n; const void* os; int id; tok val; const void* addr; }; 
extern "C" { Log vsa_iolog = { 0, 0, 0, 0, 0 }; }
template <class T> OS& rec(OS& o, const T& x) { vsa_iolog.n = vsa_iolog.n + 1; vsa_iolog.os = &o; vsa_iolog.id = VT<T>::id; vsa_iolog.val = VT<T>::val(x); vsa_iolog.addr = std::addressof(x); vsa_throw_point("operator<< of the content throws"); return o; }
#define IO(F) template <int I> OS& operator<<(OS& o, const F<I>& x) { return rec(o, x); }
IO(X) IO(XD) IO(N) IO(M) IO(C) IO(D) IO(CO) IO(W) IO(A) IO(S) IO(ND) IO(SW) IO(MO) IO(PV) IO(FI) IO(EM) IO(WW) IO(AL)
inline OS& operator<<(OS& o, const En& x) { return rec(o, x); } inline OS& operator<<(OS& o, const Pod& x) { return rec(o, x); } inline OS& operator<<(OS& o, const Pnd& x) { return rec(o, x); }
alignas(64) static char buf_[1024];
static OS& os() { return reinterpret_cast<OS&>(buf_); }
static void clear() { vsa_iolog.n = 0; vsa_iolog.os = 0; vsa_iolog.id = -1; vsa_iolog.val = 0; vsa_iolog.addr = 0; vsa_cnt[15] = 0; vsa_log[15] = 0; }
static void wrote(const St& s) {
  if (s.tracked || s.id == 4 || s.id == 5 || s.id == 8) { CHECKM(vsa_iolog.n == 1, "the content is written exactly once"); CHECKM(vsa_cnt[15] == 0, "nothing but the content is written"); CHECKM(vsa_iolog.os == (const void*)buf_, "to the given stream"); CHECKM(vsa_iolog.id == s.id && vsa_iolog.addr == s.addr, "the current content is what is written"); CHECK_SAME(vsa_iolog.val, s.val, "with its value"); }
  else { CHECKM(vsa_iolog.n == 0, "no other content is written"); if (s.id == 1) { CHECKM(vsa_cnt[15] == 1, "the content is written exactly once, and nothing else"); CHECKM((int)vsa_log[15] == (int)s.val, "with its value"); } else CHECKM(vsa_cnt[15] == 0, "blank writes nothing"); } }
template <class K> void stream() { typedef typename K::V V; V0(K, a); K::any_state(a); St s = K::obs(a); const V& c = a; clear(); vsa_freeze(&a, sizeof a); OS& r = (vsa_choose(2) ? os() << c : os() << a); vsa_unfreeze(&a, sizeof a);
  CHECKM(&r == &os(), "the stream is returned"); wrote(s); K::same_content(K::obs(a), s, "streaming leaves the variant alone"); vsa_cover("done"); }
template <class K> void stream_throw() { typedef typename K::V V; V0(K, a); K::any_state(a); St s = K::obs(a); clear(); vsa_thrown = 0; vsa_throw_mode = 1; bool threw = false; try { os() << a; } catch (Boom& e) { threw = true; CHECK_SAME(e.id, vsa_last_thrown, "the content's exception propagates"); } vsa_throw_mode = 0; CHECKM(threw == (vsa_thrown == 1), "an exception from the content's operator<< is not swallowed"); wrote(s); K::valid(a); vsa_cover("done"); }
template <class K> void chain() { typedef typename K::V V; V0(K, a); K::any_type(a); V0(K, b); K::any_type(b); St s = K::obs(a), t = K::obs(b); clear(); OS& r = (os() << a); wrote(s); clear(); OS& q = (r << b); wrote(t); CHECKM(&q == &os(), "the stream is returned"); vsa_cover("done"); }
#if LS == 7
#undef FOR_LISTS
#define FOR_LISTS(NAME, FN) extern "C" void drv_##NAME##_P() { FN<Kit<En, Pod, int> >(); } extern "C" void drv_##NAME##_O() { FN<KO7>(); } extern "C" void drv_##NAME##_Q() { FN<KQ7>(); } extern "C" void drv_##NAME##_R() { FN<KR7>(); }
#endif
FOR_LISTS(stream, stream)
FOR_LISTS(throw, stream_throw)
FOR_LISTS(chain, chain)
// nested variants and recursive ones write their innermost content
typedef boost::variant<X<0>, N<1> > In; typedef boost::variant<In, boost::recursive_wrapper<M<2> >, X<3> > Out;
extern "C" void drv_nested() { X<0> x(X<0>::mk(), vsa_fresh()); N<1> n(N<1>::mk(), vsa_fresh()); M<2> m(M<2>::mk(), vsa_fresh()); In i(x); int k = vsa_choose(3); if (k == 1) i = n; Out o(i); if (k == 2) o = m; clear(); OS& r = (os() << o); CHECKM(&r == &os() && vsa_iolog.n == 1 && vsa_cnt[15] == 0, "written once"); CHECKM(vsa_iolog.id == (k == 0 ? (int)X<0>::id : k == 1 ? (int)N<1>::id : (int)M<2>::id), "the innermost content is written"); CHECK_SAME(vsa_iolog.val, k == 0 ? x.t() : k == 1 ? n.t() : m.t(), "with its value"); vsa_cover("done"); }
