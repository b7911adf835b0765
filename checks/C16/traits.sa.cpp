//@std 11 17
//@std+ 14 20 2b
#include "kit.h"
#include <boost/mpl/vector.hpp>
#include <string>
#include <vector>
#include <memory>
#define YES(...) static_assert((__VA_ARGS__), #__VA_ARGS__)
#define NO(...) static_assert(!(__VA_ARGS__), #__VA_ARGS__)
using boost::variant; using boost::recursive_wrapper;
template <bool... B> struct bools {}; template <bool... B> struct all_ : std::is_same<bools<true, B...>, bools<B..., true> > {};
template <class... T> struct F {
  typedef variant<T...> V; enum { mc = all_<std::is_nothrow_move_constructible<T>::value...>::value, ma = all_<std::is_nothrow_move_assignable<T>::value...>::value };
  static_assert(std::is_nothrow_move_constructible<V>::value == mc, "move construction is noexcept exactly when every bounded type's is");
  static_assert(std::is_nothrow_move_assignable<V>::value == (mc && ma), "move assignment is noexcept exactly when every bounded type's moves are");
  static_assert(std::is_nothrow_destructible<V>::value, "destruction is noexcept");
  static_assert(noexcept(std::declval<const V&>().which()) && noexcept(std::declval<const V&>().empty()), "queries are noexcept");
  typedef typename nth<0, T...>::type T0;
  static_assert(noexcept(boost::get<T0>(std::declval<V*>())) && noexcept(boost::get<T0>(std::declval<const V*>())), "pointer get is noexcept");
  static_assert(!noexcept(boost::get<T0>(std::declval<V&>())), "reference get may throw");
  enum { ok = 1 }; };
// nothrow construct but throwing assign and the converse
struct MA { MA(MA&&) noexcept; MA& operator=(MA&&); MA(const MA&); MA& operator=(const MA&); };
struct MC { MC(MC&&); MC& operator=(MC&&) noexcept; MC(const MC&); MC& operator=(const MC&); };
struct Cn { Cn(const Cn&) noexcept; Cn& operator=(const Cn&) noexcept; };   // copy-only, nothrow
struct Ct { Ct(const Ct&); Ct& operator=(const Ct&); };
YES(F<int>::ok); YES(F<int, double>::ok); YES(F<X<0> >::ok); YES(F<int, X<0> >::ok); YES(F<X<0>, int>::ok); YES(F<N<0>, X<1>, N<2> >::ok); YES(F<N<0>, N<1>, M<2> >::ok);
YES(F<N<0>, N<1>, N<2>, N<3>, N<4>, X<5> >::ok); YES(F<MA>::ok); YES(F<MC>::ok); YES(F<N<0>, MA>::ok); YES(F<N<0>, MC>::ok); YES(F<MC, MA>::ok); YES(F<MA, N<0> >::ok); YES(F<MC, N<0> >::ok); YES(F<Cn, N<0> >::ok); YES(F<N<0>, Ct>::ok); YES(F<MO<0>, MO<1> >::ok); YES(F<CO<0> >::ok); YES(F<C<0>, N<1> >::ok);
YES(F<std::string, int>::ok); YES(F<std::vector<int>, std::string, std::unique_ptr<int> >::ok); YES(F<boost::blank, M<0>, A<1> >::ok); YES(F<M<0>, D<1> >::ok); YES(F<int, recursive_wrapper<N<0> > >::ok); YES(F<recursive_wrapper<N<0> >, N<1> >::ok); YES(F<variant<int, M<0> >, M<1> >::ok); YES(F<variant<int, X<0> >, M<1> >::ok);
// the same through a sequence
typedef boost::make_variant_over<boost::mpl::vector<N<0>, M<1> > >::type SV; YES(std::is_nothrow_move_constructible<SV>::value); YES(std::is_nothrow_move_assignable<SV>::value);
typedef boost::make_variant_over<boost::mpl::vector<N<0>, X<1> > >::type SX; NO(std::is_nothrow_move_constructible<SX>::value); NO(std::is_nothrow_move_assignable<SX>::value);
// the wrapper: its move allocates
typedef recursive_wrapper<N<0> > RW; NO(std::is_nothrow_move_constructible<RW>::value); NO(std::is_nothrow_default_constructible<recursive_wrapper<ND<0> > >::value); NO(std::is_nothrow_copy_constructible<RW>::value);
YES(std::is_nothrow_destructible<RW>::value);
int main() {}
