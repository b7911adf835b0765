//@std 17
//@std+ 11 14 20
// Each CASE compiles as is, and must not compile with -DBAD; the two differ only in the forbidden construct.
#include <boost/variant.hpp>
#include <boost/variant/polymorphic_get.hpp>
#include <boost/variant/multivisitors.hpp>
#include <boost/mpl/vector.hpp>
#include <utility>
#include <string>
#include <ostream>
#include <type_traits>
using boost::variant; using boost::get; using boost::static_visitor; using boost::apply_visitor; using boost::recursive_wrapper;
struct S {}; struct T {}; struct Nd { Nd(int); }; struct Mo { Mo(); Mo(Mo&&); Mo& operator=(Mo&&); Mo(const Mo&) = delete; Mo& operator=(const Mo&) = delete; };
struct Eq { bool operator==(const Eq&) const; bool operator<(const Eq&) const; };
#ifdef BAD
#define GB(g, b) b
#else
#define GB(g, b) g
#endif
#ifdef CASE_construct_lvalue
void f(const GB(S, T)& x) { variant<int, S> v(x); (void)v; }
#endif
#ifdef CASE_construct_rvalue
void f() { variant<std::string, S> v((GB(S(), T()))); (void)v; }
#endif
#ifdef CASE_construct_implicit
variant<int, S> f() { return GB(S(), T()); }
#endif
#ifdef CASE_assign_lvalue
void f(variant<int, S>& v, const GB(S, T)& x) { v = x; }
#endif
#ifdef CASE_assign_rvalue
void f(variant<int, S>& v) { v = GB(S(), T()); }
#endif
#ifdef CASE_assign_nonconst_lvalue
void f(variant<int, S>& v, GB(S, T)& x) { v = x; }
#endif
#ifdef CASE_construct_pointer
void f(S* p) { variant<int, GB(S*, S)> v(p); (void)v; }
#endif
#ifdef CASE_construct_ambiguous
void f(long x) { variant<GB(long, int), double, char> v(x); (void)v; }
#endif
#ifdef CASE_construct_foreign_variant
void f(const variant<int, GB(S, T)>& x) { variant<S, int> v(x); (void)v; }
#endif
#ifdef CASE_construct_foreign_variant_rvalue
void f(variant<int, GB(S, T)>& x) { variant<S, int> v(std::move(x)); (void)v; }
#endif
#ifdef CASE_assign_foreign_variant
void f(variant<S, int>& v, const variant<int, GB(S, T)>& x) { v = x; }
#endif
#ifdef CASE_narrow_variant
void f(const variant<int, S>& x) { variant<S, GB(int, T)> v(x); (void)v; }
#endif
#ifdef CASE_strict_get_pointer
void f(variant<int, S>& v) { (void)boost::strict_get<GB(S, T)>(&v); }
#endif
#ifdef CASE_strict_get_const_pointer
void f(const variant<int, S>& v) { (void)boost::strict_get<GB(S, T)>(&v); }
#endif
#ifdef CASE_strict_get_reference
void f(variant<int, S>& v) { (void)boost::strict_get<GB(S, T)>(v); }
#endif
#ifdef CASE_strict_get_const_reference
void f(const variant<int, S>& v) { (void)boost::strict_get<GB(S, T)>(v); }
#endif
#ifdef CASE_strict_get_rvalue
void f(variant<int, S>& v) { (void)boost::strict_get<GB(S, T)>(std::move(v)); }
#endif
#ifdef CASE_get_is_strict
void f(variant<int, S>& v) { (void)get<GB(int, long)>(v); }
#endif
#ifdef CASE_get_is_strict_pointer
void f(variant<int, S>& v) { (void)get<GB(int, long)>(&v); }
#endif
#ifdef CASE_get_is_strict_const
void f(const variant<int, S>& v) { (void)get<GB(int, long)>(v); (void)get<GB(int, long)>(&v); }
#endif
#ifdef CASE_get_wrapped
void f(variant<int, recursive_wrapper<S> >& v) { (void)get<GB(S, T)>(v); }
#endif
#ifdef CASE_polymorphic_get_foreign
struct B { virtual ~B(); }; struct D : B {}; struct O { virtual ~O(); };
void f(variant<D, int>& v) { (void)boost::polymorphic_strict_get<GB(B, O)>(&v); }
#endif
#ifdef CASE_polymorphic_get_foreign_reference
struct B { virtual ~B(); }; struct D : B {}; struct O { virtual ~O(); };
void f(const variant<D, int>& v) { (void)boost::polymorphic_get<GB(B, O)>(v); }
#endif
#ifdef CASE_polymorphic_get_private_base
struct B { virtual ~B(); }; struct D : GB(public, private) B {};
void f(variant<D, int>& v) { (void)boost::polymorphic_get<B>(&v); }
#endif
#ifdef CASE_visitor_lacks_overload
struct Vis : static_visitor<int> { int operator()(int) const { return 0; } int operator()(const GB(S, T)&) const { return 1; } };
int f(const variant<int, S>& v) { return apply_visitor(Vis(), v); }
#endif
#ifdef CASE_visitor_lacks_overload_lvalue
struct Vis : static_visitor<int> { int operator()(int) { return 0; } int operator()(const GB(S, T)&) { return 1; } };
int f(const variant<int, S>& v) { Vis x; return apply_visitor(x, v); }
#endif
#ifdef CASE_visitor_lacks_last_overload
struct Vis : static_visitor<int> { int operator()(int) const { return 0; } int operator()(const S&) const { return 0; } int operator()(const T&) const { return 0; } int operator()(const std::string&) const { return 0; } int operator()(GB(Mo, Nd)&) const { return 1; } };
int f(variant<int, S, T, std::string, Mo>& v) { return apply_visitor(Vis(), v); }
#endif
#ifdef CASE_visitor_lacks_pair_overload
struct Vis : static_visitor<int> { int operator()(int, int) const { return 0; } int operator()(int, const S&) const { return 1; } int operator()(const S&, int) const { return 2; } int operator()(const S&, const GB(S, T)&) const { return 3; } };
int f(const variant<int, S>& v) { return apply_visitor(Vis(), v, v); }
#endif
#ifdef CASE_visitor_lacks_triple_overload
struct Vis : static_visitor<int> { int operator()(int, int, GB(int, T)) const { return 0; } };
int f(variant<int>& v) { return apply_visitor(Vis(), v, v, v); }
#endif
#ifdef CASE_delayed_lacks_overload
struct Vis : static_visitor<int> { int operator()(int) const { return 0; } int operator()(const GB(S, T)&) const { return 1; } };
int f(const variant<int, S>& v) { Vis x; return apply_visitor(x)(v); }
#endif
#ifdef CASE_visitor_mutates_const
struct Vis : static_visitor<void> { void operator()(int&) const {} void operator()(S&) const {} };
void f(GB(, const) variant<int, S>& v) { apply_visitor(Vis(), v); }
#endif
#ifdef CASE_nonconst_visitor_temporary
struct Vis : static_visitor<void> { template <class U> void operator()(U&) GB(const, ) {} };
void f(variant<int, S>& v) { const Vis x = Vis(); apply_visitor(x, v); }
#endif
#ifdef CASE_default_construct
void f() { variant<GB(int, Nd), S> v; (void)v; }
#endif
#ifdef CASE_default_construct_wrapped
void f() { variant<recursive_wrapper<GB(S, Nd)>, int> v; (void)v; }
#endif
#ifdef CASE_compare_eq
bool f(const variant<int, Eq>& v) { return GB(v == v, (v == 3, true)); }
#endif
#ifdef CASE_compare_ne
bool f(const variant<int, Eq>& v) { return GB(v != v, (v != 3, true)); }
#endif
#ifdef CASE_compare_lt
bool f(const variant<int, Eq>& v) { return GB(v < v, (v < 3, true)); }
#endif
#ifdef CASE_compare_gt
bool f(const variant<int, Eq>& v) { return GB(v > v, (v > 3, true)); }
#endif
#ifdef CASE_compare_le
bool f(const variant<int, Eq>& v) { return GB(v <= v, (v <= 3, true)); }
#endif
#ifdef CASE_compare_ge
bool f(const variant<int, Eq>& v) { return GB(v >= v, (v >= 3, true)); }
#endif
#ifdef CASE_compare_needs_eq
bool f(const variant<int, GB(Eq, S)>& v) { return v == v; }
#endif
#ifdef CASE_compare_needs_lt
bool f(const variant<int, GB(Eq, S)>& v) { return v < v; }
#endif
#ifdef CASE_copy_move_only
void f(variant<int, Mo>& v) { variant<int, Mo> w(GB(std::move(v), v)); (void)w; }
#endif
#ifdef CASE_copy_const_move_only
void f(const variant<int, GB(S, Mo)>& v) { variant<int, GB(S, Mo)> w(v); (void)w; }
#endif
#ifdef CASE_copy_assign_move_only
void f(variant<int, Mo>& v, variant<int, Mo>& w) { v = GB(std::move(w), w); }
#endif
#ifdef CASE_assign_lvalue_move_only
void f(variant<int, Mo>& v, Mo& m) { v = GB(std::move(m), m); }
#endif
#ifdef CASE_construct_lvalue_move_only
void f(Mo& m) { variant<int, Mo> v(GB(std::move(m), m)); (void)v; }
#endif
#ifdef CASE_get_const_reference
void f(GB(, const) variant<int, S>& v) { int& r = get<int>(v); (void)r; }
#endif
#ifdef CASE_get_const_pointer
void f(GB(, const) variant<int, S>& v) { int* r = get<int>(&v); (void)r; }
#endif
#ifdef CASE_relaxed_get_const_reference
void f(GB(, const) variant<int, S>& v) { int& r = boost::relaxed_get<int>(v); (void)r; }
#endif
#ifdef CASE_polymorphic_get_const
struct B { virtual ~B(); }; struct D : B {};
void f(GB(, const) variant<D, int>& v) { B* p = boost::polymorphic_get<B>(&v); (void)p; }
#endif
#ifdef CASE_polymorphic_get_const_reference
struct B { virtual ~B(); }; struct D : B {};
void f(GB(, const) variant<D, int>& v) { B& p = boost::polymorphic_get<B>(v); (void)p; }
#endif
#ifdef CASE_polymorphic_relaxed_get_const
struct B { virtual ~B(); }; struct D : B {};
void f(GB(, const) variant<D, int>& v) { B& p = boost::polymorphic_relaxed_get<B>(v); (void)p; }
#endif
#ifdef CASE_assign_const
void f(GB(, const) variant<int, S>& v) { v = 3; }
#endif
#ifdef CASE_assign_const_variant
void f(GB(, const) variant<int, S>& v, const variant<int, S>& w) { v = w; }
#endif
#ifdef CASE_swap_const
void f(variant<int, S>& v, GB(, const) variant<int, S>& w) { v.swap(w); }
#endif
#ifdef CASE_swap_const_free
void f(variant<int, S>& v, GB(, const) variant<int, S>& w) { swap(v, w); }
#endif
#ifdef CASE_swap_other
void f(variant<int, S>& v, variant<GB(int, T), S>& w) { v.swap(w); }
#endif
#ifdef CASE_over_sequence
typedef boost::make_variant_over<GB(boost::mpl::vector<int>, int)>::type V; V* p; void f() { sizeof(V); }
#endif
#ifdef CASE_recursive_over_sequence
typedef boost::make_recursive_variant_over<GB(boost::mpl::vector<int>, int)>::type V; V* p; void f() { sizeof(V); }
#endif
#ifdef CASE_stream_content
struct P {}; std::ostream& operator<<(std::ostream&, const P&);
void f(std::ostream& o, const variant<int, GB(P, S)>& v) { o << v; }
#endif
#ifdef CASE_wrapper_const
void f(GB(, const) recursive_wrapper<S>& w) { S& s = w.get(); (void)s; }
#endif
#ifdef CASE_wrapper_const_pointer
void f(GB(, const) recursive_wrapper<S>& w) { S* s = w.get_pointer(); (void)s; }
#endif
#ifdef CASE_const_reference_content
void f(int& i) { variant<GB(int&, const int&), S> v(i); int& r = get<GB(int&, const int&)>(v); (void)r; }
#endif
#ifdef CASE_reference_from_rvalue
void f(int& i) { variant<int&> v(GB(i, 5)); (void)v; }
#endif
#ifdef CASE_polymorphic_get_derived
struct B { virtual ~B(); }; struct D : B {};
void f(variant<int, GB(D, B)>& v) { (void)boost::polymorphic_strict_get<D>(&v); }
#endif
#ifdef CASE_polymorphic_get_derived_reference
struct B { virtual ~B(); }; struct D : B {};
void f(variant<int, GB(D, B)>& v) { (void)boost::polymorphic_get<D>(v); }
#endif
#ifdef CASE_polymorphic_get_derived_const
struct B { virtual ~B(); }; struct D : B {};
void f(const variant<int, GB(D, B)>& v) { (void)boost::polymorphic_get<D>(&v); (void)boost::polymorphic_get<D>(v); }
#endif
#ifdef CASE_polymorphic_strict_get_reference
struct B { virtual ~B(); }; struct D : B {}; struct O { virtual ~O(); };
void f(variant<int, D>& v) { (void)boost::polymorphic_strict_get<GB(B, O)>(v); }
#endif
#ifdef CASE_polymorphic_strict_get_const_pointer
struct B { virtual ~B(); }; struct D : B {}; struct O { virtual ~O(); };
void f(const variant<int, D>& v) { (void)boost::polymorphic_strict_get<GB(B, O)>(&v); }
#endif
#ifdef CASE_strict_get_base
struct B { virtual ~B(); }; struct D : B {};
void f(variant<int, D>& v) { (void)boost::strict_get<GB(D, B)>(&v); }
#endif
#ifdef CASE_strict_get_through_const_reference
void f(variant<int&, GB(S&, const S&)>& v) { (void)boost::strict_get<S>(&v); }
#endif
#ifdef CASE_get_through_const_reference
void f(variant<int&, GB(S&, const S&)>& v) { (void)get<S>(v); }
#endif
#ifdef CASE_get_pointer_element
void f(variant<int, GB(S, S*)>& v) { (void)get<S>(v); }
#endif
#ifdef CASE_get_const_element
void f(variant<int, GB(S, const S)>& v) { S* p = boost::strict_get<S>(&v); (void)p; }
#endif
#ifdef CASE_rvalue_get_reference
void f(variant<int, S>& v) { (void)get<GB(S, S&)>(std::move(v)); }
#endif
#ifdef CASE_rvalue_strict_get_reference
void f(variant<int, S>& v) { (void)boost::strict_get<GB(S, S&)>(std::move(v)); }
#endif
#ifdef CASE_rvalue_get_into_lvalue
void f(variant<int, S>& v) { S& r = get<S>(GB(v, std::move(v))); (void)r; }
#endif
#ifdef CASE_get_const_rvalue_into_mutable
void f(GB(, const) variant<int, S>& v) { S&& r = get<S>(std::move(v)); (void)r; }
#endif
#ifdef CASE_wrapped_construct_foreign
void f(const GB(S, T)& x) { variant<int, recursive_wrapper<S> > v(x); (void)v; }
#endif
#ifdef CASE_wrapped_assign_foreign
void f(variant<int, recursive_wrapper<S> >& v, const GB(S, T)& x) { v = x; }
#endif
#ifdef CASE_wrapped_foreign_variant
void f(const variant<int, recursive_wrapper<GB(S, T)> >& x) { variant<recursive_wrapper<S>, int> v(x); (void)v; }
#endif
#ifdef CASE_over_get
typedef boost::make_variant_over<boost::mpl::vector<int, S> >::type V;
void f(V& v) { (void)get<GB(S, T)>(v); }
#endif
#ifdef CASE_over_construct
typedef boost::make_variant_over<boost::mpl::vector<int, S> >::type V;
void f(const GB(S, T)& x) { V v(x); (void)v; }
#endif
#ifdef CASE_recursive_get
typedef boost::make_recursive_variant<int, S, boost::recursive_variant_*>::type V;
void f(V& v) { (void)get<GB(V*, T*)>(v); }
#endif
#ifdef CASE_multi_const_mutation
struct Vis : static_visitor<void> { template <class A, class B> void operator()(A&, B&) const { static_assert(!std::is_const<B>::value, "content of a const variant"); } };
void f(variant<int, S>& v, GB(, const) variant<int, S>& w) { apply_visitor(Vis(), v, w); }
#endif
#ifdef CASE_multi_mutates_const
struct Vis : static_visitor<void> { void operator()(int&, int&) const {} };
void f(variant<int>& v, GB(, const) variant<int>& w) { apply_visitor(Vis(), v, w); }
#endif
#ifdef CASE_multi_three_mutates_const
struct Vis : static_visitor<void> { void operator()(int&, int&, int&) const {} };
void f(variant<int>& v, GB(, const) variant<int>& w) { apply_visitor(Vis(), v, v, w); }
#endif
#ifdef CASE_delayed_mutates_const
struct Vis : static_visitor<void> { void operator()(int&) const {} void operator()(S&) const {} };
void f(GB(, const) variant<int, S>& v) { Vis x; apply_visitor(x)(v); }
#endif
