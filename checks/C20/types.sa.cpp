//@std 11 17
//@std+ 14 20 2b
//@config min: -DBOOST_VARIANT_MINIMIZE_SIZE
#include <boost/variant.hpp>
#include <boost/variant/multivisitors.hpp>
#include <boost/variant/variant_fwd.hpp>
#include <boost/variant/recursive_wrapper_fwd.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/mpl/list.hpp>
#include <boost/mpl/deque.hpp>
#include <boost/mpl/joint_view.hpp>
#include <boost/mpl/push_front.hpp>
#include <boost/mpl/push_back.hpp>
#include <boost/mpl/transform.hpp>
#include <boost/mpl/at.hpp>
#include <boost/mpl/size.hpp>
#include <boost/mpl/equal.hpp>
#include <boost/mpl/begin_end.hpp>
#include <boost/mpl/deref.hpp>
#include <boost/mpl/advance.hpp>
#include <type_traits>
#include <vector>
#include <map>
#include <string>
#include <utility>
namespace mpl = boost::mpl; using namespace boost;
#define SAME(...) static_assert(std::is_same<__VA_ARGS__>::value, #__VA_ARGS__)
#define YES(...) static_assert((__VA_ARGS__), #__VA_ARGS__)
#define NO(...) static_assert(!(__VA_ARGS__), #__VA_ARGS__)
struct S {}; struct T {}; template <class A> struct Box {}; template <class A, class B> struct Two {}; template <class... A> struct Many {}; template <class A, class B, class C> struct Tri {};
// the element at I of a variant's public type list
template <class V, int I> struct at { typedef typename mpl::deref<typename mpl::advance_c<typename mpl::begin<typename V::types>::type, I>::type>::type type; };
template <class V> struct sz { enum { value = mpl::size<typename V::types>::value }; };
#define AT(V, I, ...) SAME(at<V, I>::type, __VA_ARGS__)
// ---- types of plain lists
typedef variant<int, S, int, recursive_wrapper<T>, S&, const T> P; YES(sz<P>::value == 6); AT(P, 0, int); AT(P, 1, S); AT(P, 2, int); AT(P, 3, T); AT(P, 4, S&); AT(P, 5, const T);
typedef variant<int> P1; YES(sz<P1>::value == 1); AT(P1, 0, int);
typedef variant<variant<int, S>, recursive_wrapper<variant<T> > > PN; AT(PN, 0, variant<int, S>); AT(PN, 1, variant<T>);
// ---- wide list
template <int N> struct Wd {};
template <int... I> struct sq {}; template <int N, int... I> struct mk : mk<N - 1, N - 1, I...> {}; template <int... I> struct mk<0, I...> { typedef sq<I...> type; };
template <class> struct wide; template <int... I> struct wide<sq<I...> > { template <int N> using v = Wd<N>; typedef variant<Wd<I>...> type; };
// ---- make_variant_over
typedef make_variant_over<mpl::vector<int, S, T> >::type OV; YES(sz<OV>::value == 3); AT(OV, 0, int); AT(OV, 1, S); AT(OV, 2, T);
typedef make_variant_over<mpl::list<T, int> >::type OL; YES(sz<OL>::value == 2); AT(OL, 0, T); AT(OL, 1, int);
typedef make_variant_over<mpl::deque<S, T> >::type OD; AT(OD, 0, S); AT(OD, 1, T);
typedef mpl::vector<int, S> va; typedef mpl::vector<T, double> vb; typedef make_variant_over<mpl::joint_view<va, vb> >::type OJ; YES(sz<OJ>::value == 4); AT(OJ, 0, int); AT(OJ, 1, S); AT(OJ, 2, T); AT(OJ, 3, double);
typedef make_variant_over<mpl::push_front<mpl::list<S>, int>::type>::type OF; AT(OF, 0, int); AT(OF, 1, S);
typedef make_variant_over<mpl::push_back<mpl::vector<S>, int>::type>::type OB; AT(OB, 0, S); AT(OB, 1, int);
typedef make_variant_over<mpl::vector<recursive_wrapper<S>, int> >::type OW; AT(OW, 0, S); AT(OW, 1, int);
typedef make_variant_over<mpl::vector<int, int, S> >::type OR; YES(sz<OR>::value == 3); AT(OR, 1, int);
YES(std::is_default_constructible<OV>::value); YES(std::is_constructible<OV, S>::value); NO(std::is_constructible<OV, std::string>::value);
// ---- recursive_variant_
typedef make_recursive_variant<int, Box<recursive_variant_> >::type R1; YES(sz<R1>::value == 2); AT(R1, 0, int); AT(R1, 1, Box<R1>);
typedef make_recursive_variant<int, std::vector<recursive_variant_>, std::map<std::string, recursive_variant_> >::type R2; AT(R2, 1, std::vector<R2, std::allocator<R2> >); AT(R2, 2, std::map<std::string, R2, std::less<std::string>, std::allocator<std::pair<const std::string, R2> > >);
typedef make_recursive_variant<S, recursive_variant_*, const recursive_variant_*, recursive_variant_* const, recursive_variant_**, recursive_variant_&, const recursive_variant_&>::type R3; AT(R3, 0, S); AT(R3, 1, R3*); AT(R3, 2, const R3*); AT(R3, 3, R3* const); AT(R3, 4, R3**); AT(R3, 5, R3&); AT(R3, 6, const R3&);
typedef make_recursive_variant<int, Box<Box<recursive_variant_> >, Two<int, recursive_variant_>, Two<recursive_variant_, Box<recursive_variant_> >, Two<Box<int>, S>, Tri<int, recursive_variant_*, S>, Many<recursive_variant_, int, recursive_variant_> >::type R4;
AT(R4, 1, Box<Box<R4> >); AT(R4, 2, Two<int, R4>); AT(R4, 3, Two<R4, Box<R4> >); AT(R4, 4, Two<Box<int>, S>); AT(R4, 5, Tri<int, R4*, S>); AT(R4, 6, Many<R4, int, R4>);
typedef make_recursive_variant<int, recursive_variant_ (*)(recursive_variant_), void (*)(int, const recursive_variant_&), int (*)(), Box<recursive_variant_> (*)(recursive_variant_*, S)>::type R5; AT(R5, 1, R5 (*)(R5)); AT(R5, 2, void (*)(int, const R5&)); AT(R5, 3, int (*)()); AT(R5, 4, Box<R5> (*)(R5*, S));
typedef make_recursive_variant<int, variant<S, Box<recursive_variant_> > >::type R6; AT(R6, 1, variant<S, Box<R6> >);
typedef make_recursive_variant<int, Box<variant<recursive_variant_, S> > >::type R7; AT(R7, 1, Box<variant<R7, S> >);
typedef make_recursive_variant<int, Box<const recursive_variant_>, Box<volatile recursive_variant_> >::type R8; AT(R8, 1, Box<const R8>); AT(R8, 2, Box<volatile R8>);
typedef make_recursive_variant_over<mpl::vector<int, Box<recursive_variant_>, recursive_variant_*> >::type RO; YES(sz<RO>::value == 3); AT(RO, 0, int); AT(RO, 1, Box<RO>); AT(RO, 2, RO*);
typedef make_recursive_variant_over<mpl::list<S, Two<recursive_variant_, int> > >::type RL; AT(RL, 0, S); AT(RL, 1, Two<RL, int>);
// a recursive variant inside another: the inner placeholder belongs to the inner variant
typedef make_recursive_variant<int, Box<R1> >::type R9; AT(R9, 1, Box<R1>);
typedef make_recursive_variant<int, Box<recursive_variant_>, Box<make_recursive_variant<S, Two<recursive_variant_, int> >::type> >::type RA; AT(RA, 1, Box<RA>); typedef make_recursive_variant<S, Two<recursive_variant_, int> >::type RAi; AT(RA, 2, Box<RAi>); AT(RAi, 1, Two<RAi, int>);
// first element is the recursive one
typedef make_recursive_variant<Box<recursive_variant_>, int>::type RF; AT(RF, 0, Box<RF>); AT(RF, 1, int);
// cv-qualified pointers and placeholders
typedef make_recursive_variant<S, recursive_variant_* volatile, recursive_variant_* const volatile, volatile recursive_variant_*, const volatile recursive_variant_*, Box<const volatile recursive_variant_>, Box<recursive_variant_* const* volatile>, volatile recursive_variant_&>::type RV;
AT(RV, 1, RV* volatile); AT(RV, 2, RV* const volatile); AT(RV, 3, volatile RV*); AT(RV, 4, const volatile RV*); AT(RV, 5, Box<const volatile RV>); AT(RV, 6, Box<RV* const* volatile>); AT(RV, 7, volatile RV&);
// an inner recursive variant whose first element is its own placeholder is left alone
typedef make_recursive_variant<int, Box<RF>, Box<recursive_variant_> >::type RG; AT(RG, 1, Box<RF>); AT(RG, 2, Box<RG>);
typedef make_recursive_variant<int, RF, Two<RF, recursive_variant_> >::type RH; AT(RH, 1, RF); AT(RH, 2, Two<RF, RH>);
// inner sequence-specified variants
typedef make_recursive_variant<int, make_variant_over<mpl::vector<S, Box<recursive_variant_> > >::type>::type RI; typedef at<RI, 1>::type RIi; YES(sz<RIi>::value == 2); AT(RIi, 0, S); AT(RIi, 1, Box<RI>);
typedef make_recursive_variant<int, Box<make_variant_over<mpl::vector<S, recursive_variant_*> >::type>, make_variant_over<mpl::vector<S, T> >::type>::type RJ; AT(RJ, 2, make_variant_over<mpl::vector<S, T> >::type);
typedef make_recursive_variant<variant<recursive_variant_*, S>, int>::type RK; AT(RK, 0, variant<RK*, S>);
// only what changed is wrapped: inner variants, pointers and references are held directly (their moves cannot throw)
YES(boost::is_nothrow_move_constructible<RIi>::value); YES(std::is_nothrow_move_constructible<variant<S, Box<R6> > >::value);
YES(std::is_nothrow_move_constructible<make_recursive_variant<int, recursive_variant_*, const recursive_variant_*, recursive_variant_ (*)(recursive_variant_)>::type>::value);
YES(std::is_nothrow_move_constructible<make_recursive_variant<int, recursive_variant_*, S, Box<int> >::type>::value); NO(std::is_nothrow_move_constructible<R1>::value);
YES(std::is_nothrow_move_constructible<make_recursive_variant_over<mpl::vector<int, recursive_variant_*> >::type>::value); NO(std::is_nothrow_move_constructible<RO>::value);
SAME(unwrap_recursive<recursive_wrapper<const S> >::type, const S);
// pointers and references to the variant are not wrapped, other uses are
YES(sizeof(make_recursive_variant<int, recursive_variant_*>::type) <= 16);
// ---- wrappers
YES(is_recursive_wrapper<recursive_wrapper<S> >::value); NO(is_recursive_wrapper<S>::value); NO(is_recursive_wrapper<recursive_wrapper<S>&>::value); NO(is_recursive_wrapper<recursive_wrapper<S>*>::value); NO(is_recursive_wrapper<Box<recursive_wrapper<S> > >::value);
SAME(unwrap_recursive<recursive_wrapper<S> >::type, S); SAME(unwrap_recursive<S>::type, S); SAME(unwrap_recursive<recursive_wrapper<Box<int> > >::type, Box<int>); SAME(unwrap_recursive<int&>::type, int&); SAME(unwrap_recursive<recursive_wrapper<recursive_wrapper<S> > >::type, recursive_wrapper<S>);
SAME(recursive_wrapper<S>::type, S);
struct Inc;   // the traits must not need the wrapped type complete
YES(boost::is_constructible<recursive_wrapper<Inc>, const Inc&>::value); YES(boost::is_constructible<recursive_wrapper<Inc>, Inc&>::value); NO(boost::is_constructible<recursive_wrapper<Inc>, int>::value); NO(boost::is_constructible<recursive_wrapper<Inc>, const S&>::value); NO(boost::is_constructible<recursive_wrapper<Inc>, S&>::value); YES(boost::is_constructible<recursive_wrapper<Inc>, const recursive_wrapper<Inc>&>::value); YES(boost::is_constructible<recursive_wrapper<Inc>, recursive_wrapper<Inc>&>::value); NO(boost::is_constructible<recursive_wrapper<Inc>, recursive_wrapper<S> >::value); NO(boost::is_constructible<recursive_wrapper<Inc>, const recursive_wrapper<S>&>::value); NO(boost::is_nothrow_move_constructible<recursive_wrapper<Inc> >::value);
YES(boost::is_constructible<recursive_wrapper<S>, S>::value); YES(boost::is_constructible<recursive_wrapper<S>, const S>::value); YES(boost::is_constructible<recursive_wrapper<S>, recursive_wrapper<S> >::value); NO(boost::is_constructible<recursive_wrapper<S>, T>::value); NO(boost::is_constructible<recursive_wrapper<S>, const T>::value);
NO(boost::is_constructible<recursive_wrapper<Inc>, recursive_wrapper<S>&>::value); NO(boost::is_constructible<recursive_wrapper<S>, const recursive_wrapper<T> >::value); YES(boost::is_constructible<recursive_wrapper<S>, const recursive_wrapper<S> >::value);
NO(boost::is_nothrow_move_constructible<recursive_wrapper<int> >::value);
// ---- result types of visitation
template <class R> struct Vis : static_visitor<R> { template <class U> R operator()(const U&) const; template <class U> R operator()(const U&); template <class A, class B> R operator()(const A&, const B&) const; template <class A, class B, class C> R operator()(const A&, const B&, const C&) const; };
typedef variant<int, S> V; template <class U> U dv();
SAME(decltype(apply_visitor(dv<Vis<int>&>(), dv<V&>())), int); SAME(decltype(apply_visitor(dv<const Vis<int>&>(), dv<const V&>())), int); SAME(decltype(apply_visitor(dv<Vis<S&>&>(), dv<V&>())), S&); SAME(decltype(apply_visitor(dv<const Vis<const S&>&>(), dv<V&>())), const S&); SAME(decltype(apply_visitor(dv<Vis<void>&>(), dv<V&>())), void); SAME(decltype(apply_visitor(dv<Vis<int*>&>(), dv<V>())), int*); SAME(decltype(apply_visitor(dv<const Vis<std::string>&>(), dv<V>())), std::string);
SAME(decltype(apply_visitor(dv<const Vis<S&>&>(), dv<V&>(), dv<const V&>())), S&); SAME(decltype(apply_visitor(dv<const Vis<int>&>(), dv<V&>(), dv<V&>(), dv<const V&>())), int);
SAME(static_visitor<int>::result_type, int); SAME(static_visitor<>::result_type, void); SAME(static_visitor<S&>::result_type, S&); YES(is_static_visitor<Vis<int> >::value); NO(is_static_visitor<S>::value);
#if __cplusplus >= 201402L
struct Auto { template <class U> auto operator()(const U&) const { return 1L; } template <class A, class B> S* operator()(const A&, const B&) const; }; struct AutoRef { int i; template <class U> int& operator()(const U&) { return i; } };
SAME(decltype(apply_visitor(dv<const Auto&>(), dv<V&>())), long); SAME(decltype(apply_visitor(dv<AutoRef&>(), dv<V&>())), int&); SAME(decltype(apply_visitor(dv<const Auto&>(), dv<V&>(), dv<V&>())), S*);
#endif
// ---- result types of get
SAME(decltype(get<int>(dv<V&>())), int&); SAME(decltype(get<int>(dv<const V&>())), const int&); SAME(decltype(get<int>(dv<V*>())), int*); SAME(decltype(get<int>(dv<const V*>())), const int*); SAME(decltype(get<int>(dv<V>())), int&&);
SAME(decltype(strict_get<S>(dv<V&>())), S&); SAME(decltype(strict_get<S>(dv<const V*>())), const S*); SAME(decltype(relaxed_get<S>(dv<V&>())), S&); SAME(decltype(relaxed_get<T>(dv<const V*>())), const T*);
int main() {}
