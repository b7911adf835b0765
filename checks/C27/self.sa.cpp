//@std 17 11
//@std+ 14 20 2b
//@config apply_visitor: -DHDR=<boost/variant/apply_visitor.hpp> -DH_apply_visitor=1
//@config bad_visit: -DHDR=<boost/variant/bad_visit.hpp> -DH_bad_visit=1
//@config get: -DHDR=<boost/variant/get.hpp> -DH_get=1
//@config multivisitors: -DHDR=<boost/variant/multivisitors.hpp> -DH_multivisitors=1
//@config polymorphic_get: -DHDR=<boost/variant/polymorphic_get.hpp> -DH_polymorphic_get=1
//@config recursive_variant: -DHDR=<boost/variant/recursive_variant.hpp> -DH_recursive_variant=1
//@config recursive_wrapper: -DHDR=<boost/variant/recursive_wrapper.hpp> -DH_recursive_wrapper=1
//@config recursive_wrapper_fwd: -DHDR=<boost/variant/recursive_wrapper_fwd.hpp> -DH_recursive_wrapper_fwd=1
//@config static_visitor: -DHDR=<boost/variant/static_visitor.hpp> -DH_static_visitor=1
//@config variant: -DHDR=<boost/variant/variant.hpp> -DH_variant=1
//@config variant_fwd: -DHDR=<boost/variant/variant_fwd.hpp> -DH_variant_fwd=1
//@config visitor_ptr: -DHDR=<boost/variant/visitor_ptr.hpp> -DH_visitor_ptr=1
// every public header compiles as the first (and second) line of a translation unit, offers there what it is documented to
// offer, and the rest of the library can be included after it
#ifndef HDR
#define HDR <boost/variant.hpp>
#define H_umbrella 1
#define H_variant 1
#endif
#include HDR
#include HDR
#if H_recursive_wrapper
struct RW; struct RWU { boost::recursive_wrapper<RW> w; RWU(); RWU(const RWU&); ~RWU(); };
template class boost::recursive_wrapper<int>;
inline int rw(boost::recursive_wrapper<int>& a, boost::recursive_wrapper<int>& b) { boost::recursive_wrapper<int> c(a), d(static_cast<boost::recursive_wrapper<int>&&>(b)), e(3); int i = 2; a = b; a = static_cast<boost::recursive_wrapper<int>&&>(b); a = i; a = 4; a.swap(c); swap(c, d); return a.get() + *e.get_pointer(); }
#endif
#if H_recursive_wrapper || H_recursive_wrapper_fwd
static_assert(boost::is_recursive_wrapper<boost::recursive_wrapper<int> >::value && !boost::is_recursive_wrapper<int>::value, "traits");
template <class T> struct unwrapped { typedef typename boost::unwrap_recursive<T>::type type; }; template <class T, class U> struct same_ { enum { v = 0 }; }; template <class T> struct same_<T, T> { enum { v = 1 }; };
static_assert(same_<unwrapped<boost::recursive_wrapper<int> >::type, int>::v && same_<unwrapped<long>::type, long>::v, "traits");
#endif
#if H_static_visitor
struct Vis : boost::static_visitor<int> { template <class T> int operator()(const T&) const { return 0; } }; static_assert(boost::is_static_visitor<Vis>::value && !boost::is_static_visitor<int>::value, "traits");
#endif
#if H_bad_visit
inline const char* bv() { try { throw boost::bad_visit(); } catch (std::exception& e) { return e.what(); } }
#endif
#if H_visitor_ptr
inline int vf(int) { return 1; } inline int vfr(int&) { return 1; } inline void vfv(const char&) {}
inline int vp(int& i, const char& c) { boost::visitor_ptr(&vfv)(c); return boost::visitor_ptr(&vf)(i) + boost::visitor_ptr(&vfr)(i); }
#endif
#if H_apply_visitor || H_multivisitors || H_variant
struct AV { typedef int result_type; template <class... T> int operator()(const T&...) const { return 1; } };
#endif
#if H_variant && !H_umbrella
inline int core(boost::variant<int, char>& a, const boost::variant<int, char>& b) { boost::variant<int, char> c(a), d; d = c; d = 3; d.swap(a); return (a == b) + (a < b) + a.which() + a.empty() + (&a.type() == &b.type()); }
#endif
#if H_umbrella
struct UN; typedef boost::variant<int, boost::recursive_wrapper<UN> > UV; struct UN { UV l, r; }; typedef boost::make_recursive_variant<int, boost::recursive_variant_*>::type MR;
struct UVis : boost::static_visitor<int> { template <class T> int operator()(const T&) const { return 1; } template <class T, class U> int operator()(const T&, const U&) const { return 2; } };
inline int un(UV& a, const UV& b, MR& m) { UVis v; return boost::apply_visitor(v, a) + boost::apply_visitor(UVis(), a, b) + boost::apply_visitor(v)(b) + boost::get<int>(a) + (boost::get<UN>(&b) != 0) + m.which(); }
#endif
#ifndef H_umbrella
// ... and everything else after it, in an order of its own
#include <boost/variant/visitor_ptr.hpp>
#include <boost/variant/polymorphic_get.hpp>
#include <boost/variant/multivisitors.hpp>
#include <boost/variant/get.hpp>
#include <boost/variant/recursive_variant.hpp>
#include <boost/variant.hpp>
#endif
struct Tree; typedef boost::variant<int, char, boost::recursive_wrapper<Tree> > V; struct Tree { V l, r; };
struct All : boost::static_visitor<int> { template <class... T> int operator()(const T&...) const { return 1; } };
inline int use(V& a, const V& b) { All f; return boost::apply_visitor(f, a) + boost::apply_visitor(f, a, b) + boost::apply_visitor(f)(b) + boost::get<int>(a) + (boost::get<Tree>(&b) != 0) + a.which(); }
static_assert(sizeof(V) > 0, "complete");
