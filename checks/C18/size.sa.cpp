//@std 11 17
//@std+ 14 20 2b
//@config min: -DBOOST_VARIANT_MINIMIZE_SIZE
#include "kit.h"
#include <boost/mpl/vector.hpp>
#include <string>
#include <memory>
#define YES(...) static_assert((__VA_ARGS__), #__VA_ARGS__)
using boost::variant; using boost::recursive_wrapper;
constexpr std::size_t mx(std::size_t a) { return a; } template <class... R> constexpr std::size_t mx(std::size_t a, std::size_t b, R... r) { return mx(a > b ? a : b, r...); }
constexpr std::size_t up(std::size_t s, std::size_t a) { return (s + a - 1) / a * a; }
#ifdef BOOST_VARIANT_MINIMIZE_SIZE
#define DISC 1
#else
#define DISC sizeof(int)
#endif
template <class... T> struct F { typedef variant<T...> V; static constexpr std::size_t S = mx(sizeof(void*), sizeof(T)...), A = mx(alignof(void*), alignof(T)...), DA = mx(A, DISC);
  static_assert(sizeof(V) <= up(S, A) + up(DISC, DA), "the size is the largest bounded type plus a discriminator, rounded up"); static_assert(sizeof(V) >= mx(sizeof(T)...) + 1, "the content and the discriminator fit");
  static_assert(alignof(V) >= mx(alignof(T)...), "aligned for every bounded type"); static_assert(sizeof(V) % alignof(V) == 0, ""); enum { ok = 1 }; };
struct alignas(64) Big64 { char c[64]; }; struct alignas(16) B16 { char c[48]; }; struct S3 { char c[3]; }; struct S9 { char c[9]; };
struct alignas(64) TBig64 { char c[64]; TBig64(const TBig64&); TBig64& operator=(const TBig64&); };
YES(F<char>::ok); YES(F<int>::ok); YES(F<char, short>::ok); YES(F<char, double>::ok); YES(F<double, char>::ok); YES(F<S3, S9>::ok); YES(F<S9, long>::ok); YES(F<long, S9>::ok); YES(F<Big64, char>::ok); YES(F<char, Big64>::ok); YES(F<char, S9, B16, int>::ok); YES(F<X<0>, A<1>, S<2> >::ok); YES(F<A<1>, S<2> >::ok); YES(F<S<0> >::ok); YES(F<S<0>, S<1> >::ok); YES(F<W<0>, S<1> >::ok); YES(F<TBig64, S<1> >::ok); YES(F<S<1>, TBig64>::ok); YES(F<std::string, int>::ok); YES(F<long double, char, S3>::ok); YES(F<recursive_wrapper<Big64>, char>::ok); YES(F<variant<char, Big64>, int>::ok); YES(F<int, int*, B16, TBig64>::ok); YES(F<char, char*>::ok);
YES(sizeof(variant<recursive_wrapper<W<0> >, int>) <= 16); YES(sizeof(variant<recursive_wrapper<Big64>, recursive_wrapper<W<0> > >) <= 16);
typedef boost::make_variant_over<boost::mpl::vector<char, Big64, S3> >::type SV; YES(alignof(SV) >= 64 && sizeof(SV) <= 128 && sizeof(SV) >= 65);
int main() {}
