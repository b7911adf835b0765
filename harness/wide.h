// Wide lists: N<0>..N<COUNT-1> (all nothrow) or a list mixing throwing types, via make_variant_over.
#ifndef VSA_WIDE_H
#define VSA_WIDE_H
#include "kit.h"
#include <boost/mpl/list.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/mpl/joint_view.hpp>
#include <boost/mpl/push_front.hpp>
template <int... I> struct seq {}; template <int N, int... I> struct mkseq : mkseq<N - 1, N - 1, I...> {}; template <int... I> struct mkseq<0, I...> { typedef seq<I...> type; };
template <class... T> struct mlist; template <> struct mlist<> { typedef boost::mpl::list<>::type type; };
template <class T, class... R> struct mlist<T, R...> { typedef typename boost::mpl::push_front<typename mlist<R...>::type, T>::type type; };
template <template <int> class F, class S> struct WideKit; template <template <int> class F, int... I> struct WideKit<F, seq<I...> > : KitV<typename boost::make_variant_over<typename mlist<F<I>...>::type>::type, F<I>...> {};
// every third type throws, every third is like a string, the rest cannot throw
template <int I, int R> struct mixpick { typedef X<I> type; }; template <int I> struct mixpick<I, 1> { typedef M<I> type; }; template <int I> struct mixpick<I, 2> { typedef N<I> type; };
template <class S> struct MixKit; template <int... I> struct MixKit<seq<I...> > : KitV<typename boost::make_variant_over<typename mlist<typename mixpick<I, I % 3>::type...>::type>::type, typename mixpick<I, I % 3>::type...> {};
template <int C> struct NW : WideKit<N, typename mkseq<C>::type> {};
template <int C> struct MW : MixKit<typename mkseq<C>::type> {};
// 22 bounded types (more than the visitation unrolling limit), of which the clients use those at either end
template <int I, int R> struct mixblank : mixpick<I, R> {}; template <int R> struct mixblank<20, R> { typedef boost::blank type; };
template <class S> struct MixBKit; template <int... I> struct MixBKit<seq<I...> > : KitV<typename boost::make_variant_over<typename mlist<typename mixblank<I, I % 3>::type...>::type>::type, typename mixblank<I, I % 3>::type...> {};
#ifdef VSA_EXC
template <class B> struct Few : B { enum { n = 5 }; typedef typename B::V V; static int ix(int k) { return k < 2 ? k : k + 17; }
  template <class F> static void with(int k, F f) { B::with(ix(k), f); }
  static void any_type(V& v) { int k = vsa_choose(n); typename B::AsgR f = { v }; with(k, f); }
  static void any_state(V& v) { any_type(v);
    if (vsa_choose_named("an earlier assignment to the variant failed")) {
      vsa_throw_mode = 1; bool ok = false;
      try { int j = vsa_choose(n); typename B::AsgL f = { v }; with(j, f); ok = true; } catch (Boom&) {}
      vsa_throw_mode = 0; vsa_thrown = 0; vsa_last_thrown = 0;
      if (ok) vsa_stop(); }
    B::reset(); } };
typedef Few<MixKit<mkseq<22>::type> > KX10; typedef Few<MixBKit<mkseq<22>::type> > KY10;
#endif
#endif
