//@std 11 17
//@std+ 14 20 2b
// the same rejections, visible to overload resolution
#include <boost/variant.hpp>
#include <type_traits>
#include <string>
#include <utility>
#define YES(...) static_assert((__VA_ARGS__), #__VA_ARGS__)
#define NO(...) static_assert(!(__VA_ARGS__), #__VA_ARGS__)
using boost::variant; using boost::recursive_wrapper;
struct S {}; struct T {}; struct FromT { FromT(const T&); }; struct Ex { explicit Ex(const T&); }; enum E { e };
struct Mo { Mo(); Mo(Mo&&); Mo& operator=(Mo&&); Mo(const Mo&) = delete; Mo& operator=(const Mo&) = delete; };
template <class A, class B> struct con : std::is_constructible<A, B> {}; template <class A, class B> struct asg : std::is_assignable<A&, B> {};
typedef variant<int, S> V; typedef variant<int, FromT> F; typedef variant<S, std::string> W;
YES(con<V, S>::value); YES(con<V, const S&>::value); YES(con<V, S&>::value); NO(con<V, T>::value); NO(con<V, const T&>::value); NO(con<V, T&>::value); NO(con<V, S*>::value); NO(con<V, std::string>::value); YES(con<V, long>::value); YES(con<V, E>::value);
YES(asg<V, S>::value); YES(asg<V, const S&>::value); YES(asg<V, S&>::value); NO(asg<V, T>::value); NO(asg<V, const T&>::value); NO(asg<V, T&>::value); NO(asg<V, S*>::value);
YES(con<F, T>::value); YES(asg<F, const T&>::value); NO(con<F, S>::value); NO(asg<F, S>::value);
YES(con<W, const char*>::value); YES(asg<W, const char*>::value); NO(con<W, T>::value); NO(con<W, void*>::value);
NO(std::is_convertible<T, V>::value); YES(std::is_convertible<S, V>::value); YES(std::is_convertible<int, V>::value);
YES(con<V, const V&>::value); YES(con<V, V>::value); YES(asg<V, const V&>::value); YES(asg<V, V>::value);
YES(con<variant<S, int>, variant<int, S> >::value); YES(con<variant<S, int>, const variant<int, S>&>::value); NO(con<variant<S, int>, variant<int, T> >::value); NO(con<variant<S, int>, const variant<int, T>&>::value); NO(con<variant<int>, variant<int, S> >::value); NO(asg<variant<S, int>, variant<int, T> >::value); NO(asg<variant<S, int>, const variant<T, S>&>::value);
typedef variant<int, Mo> M; YES(con<M, Mo>::value); NO(con<M, const Mo&>::value); NO(con<M, Mo&>::value); YES(asg<M, Mo>::value); NO(asg<M, const Mo&>::value); NO(asg<M, Mo&>::value); YES(con<M, M>::value); YES(asg<M, M>::value);
YES(con<variant<int, recursive_wrapper<S> >, S>::value); NO(con<variant<int, recursive_wrapper<S> >, T>::value); NO(asg<variant<int, recursive_wrapper<S> >, const T&>::value);
// assignment and swap need a mutable left operand
NO(std::is_assignable<const V&, V>::value); NO(std::is_assignable<const V&, int>::value); 
int main() {}
