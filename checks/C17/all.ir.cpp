//@std 17
//@std+ 11 14 20 2b
//@args --lint-static
//@ignore LEAK-OBJECT LEAK-HEAP
//@cover all:done
// every part of the interface instantiated once, mutating operations included: none of it may define mutable static data
#define VSA_MAIN
#include "kit.h"
#include <functional>
#include <ostream>
#include <boost/functional/hash.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/variant/multivisitors.hpp>
#include <boost/variant/visitor_ptr.hpp>
#include <boost/variant/polymorphic_get.hpp>
#include <boost/variant/recursive_variant.hpp>
typedef std::basic_ostream<char> OS;
#define IO(F) template <int I> OS& operator<<(OS& o, const F<I>& x) { (void)x.t(); return o; } template <int I> std::size_t hash_value(const F<I>& x) { return x.t(); } template <int I> bool operator==(const F<I>& a, const F<I>& b) { return a.t() == b.t(); } template <int I> bool operator<(const F<I>& a, const F<I>& b) { return a.t() < b.t(); }
IO(X) IO(XD) IO(N) IO(M) IO(C) IO(D)
struct Base { virtual ~Base() {} int b; }; struct Der : Base { int d; };
inline OS& operator<<(OS& o, const Base&) { return o; }
struct One : boost::static_visitor<int> { template <class... T> int operator()(T&&...) const { return 1; } template <class... T> int operator()(T&&...) { return 2; } };
struct Bare { template <class... T> int operator()(T&&...) const { return 1; } template <class... T> int operator()(T&&...) { return 2; } };
template <class T> int fv(T) { return 1; } template <class T> int fr(T&) { return 1; } template <class T> int fc(const T&) { return 1; } template <class T> void fz(T) {}
template <class V> void value_ops(V& a, const V& c, OS& o) {
  V x(c), y(std::move(a)); x = c; y = std::move(x); x.swap(y); swap(x, y); (void)(x == c || x != c || x < c || x > c || x <= c || x >= c); (void)x.which(); (void)x.empty(); (void)&x.type(); o << c; (void)hash_value(c); (void)boost::hash<V>()(c); (void)std::hash<V>()(c); }
template <class V> void visits(V& a, const V& c) { One f; const One g = One(); (void)a.apply_visitor(f); (void)c.apply_visitor(g); (void)std::move(a).apply_visitor(f); (void)std::move(c).apply_visitor(f);
  (void)boost::apply_visitor(f, a); (void)boost::apply_visitor(g, c); (void)boost::apply_visitor(f, std::move(a)); (void)boost::apply_visitor(f, a, c); (void)boost::apply_visitor(g, c, a); (void)boost::apply_visitor(f, std::move(a), std::move(a));
  (void)boost::apply_visitor(f)(a); (void)boost::apply_visitor(f)(a, c);
#if __cplusplus >= 201402L
  Bare h; const Bare k = Bare(); (void)boost::apply_visitor(h, a); (void)boost::apply_visitor(k, c); (void)boost::apply_visitor(h, std::move(a)); (void)boost::apply_visitor(h, a, c); (void)boost::apply_visitor(k, c, a); (void)boost::apply_visitor(h, std::move(a), std::move(a)); (void)boost::apply_visitor(h)(a); (void)boost::apply_visitor(h)(a, c);
#endif
}
template <class V> void nary(V& a, const V& c) { One f; const One g = One(); (void)boost::apply_visitor(f, a, c, a); (void)boost::apply_visitor(g, c, c, a, a); (void)boost::apply_visitor(f, std::move(a), c, std::move(a)); (void)boost::apply_visitor(f)(a, c, a);
#if __cplusplus >= 201402L
  Bare h; const Bare k = Bare(); (void)boost::apply_visitor(h, a, c, a); (void)boost::apply_visitor(k, c, c, a, a); (void)boost::apply_visitor(h, std::move(a), c, std::move(a)); (void)boost::apply_visitor(h)(a, c, a);
#endif
}
template <class T, class V> void gets(V& a, const V& c) { using namespace boost;
  (void)get<T>(&a); (void)get<T>(&c); (void)get<T>(a); (void)get<T>(c); (void)get<T>(std::move(a)); (void)strict_get<T>(&a); (void)strict_get<T>(&c); (void)strict_get<T>(a); (void)strict_get<T>(c); (void)strict_get<T>(std::move(a)); (void)relaxed_get<T>(&a); (void)relaxed_get<T>(&c); (void)relaxed_get<T>(a); (void)relaxed_get<T>(c); (void)relaxed_get<T>(std::move(a)); (void)get<const T>(&a);
  (void)polymorphic_get<T>(&a); (void)polymorphic_get<T>(&c); (void)polymorphic_get<T>(a); (void)polymorphic_get<T>(c); (void)polymorphic_strict_get<T>(&a); (void)polymorphic_strict_get<T>(&c); (void)polymorphic_strict_get<T>(a); (void)polymorphic_strict_get<T>(c); (void)polymorphic_relaxed_get<T>(&a); (void)polymorphic_relaxed_get<T>(&c); (void)polymorphic_relaxed_get<T>(a); (void)polymorphic_relaxed_get<T>(c); }
template <class T, class V> void from(V& a, T& t) { const T& c = t; V p(t), q(c), r(std::move(t)); a = t; a = c;
#ifndef VSA_NO_RVALUE_ASSIGN
  a = std::move(t);
#endif
}
typedef boost::variant<XD<0>, X<1>, M<2>, C<3>, int> VA; typedef boost::variant<boost::blank, X<1>, M<2> > VF; typedef boost::variant<X<1>, M<2> > VS; typedef boost::variant<Der, Base, int> VP;
struct Nd; typedef boost::variant<int, boost::recursive_wrapper<Nd> > VR; struct Nd { VR l, r; }; inline OS& operator<<(OS& o, const Nd&) { return o; } inline bool operator==(const Nd& a, const Nd& b) { return a.l == b.l; } inline bool operator<(const Nd& a, const Nd& b) { return a.l < b.l; } inline std::size_t hash_value(const Nd& n) { return hash_value(n.l); }
typedef boost::make_recursive_variant<int, M<2>, boost::recursive_variant_*>::type VM; typedef boost::make_variant_over<boost::mpl::vector<X<1>, int> >::type VO;
extern void use(void*);
namespace boost { inline std::size_t hash_value(const blank&) { return 7; } }
template <class V, class T> void whole(V& a, T& t, OS& o) { const V& c = a; V d; use(&d); value_ops(a, c, o); visits(a, c); gets<T>(a, c); from(a, t); }
void everything(VA& a, VF& f, VS& s, VP& p, VR& r, VM& m, VO& v, X<1>& x, M<2>& k, int& i, Nd& n, OS& o, boost::variant<int&, X<1> >& ref) {
  whole(a, k, o); whole(f, x, o); whole(m, i, o); { const VR& c = r; VR d; use(&d); value_ops(r, c, o); visits(r, c); gets<Nd>(r, c); from(r, n); from(r, i); } { const VO& c = v; value_ops(v, c, o); visits(v, c); gets<int>(v, c); from(v, i); }
  nary(s, s); from(a, s); from(f, s); { VA b(s), e(std::move(s)); use(&b); use(&e); } (void)boost::polymorphic_relaxed_get<Base>(&p); (void)boost::polymorphic_get<Base>(p);
  { VS q(x); boost::apply_visitor(boost::visitor_ptr(&fv<X<1> >), q); boost::apply_visitor(boost::visitor_ptr(&fr<X<1> >), q); boost::apply_visitor(boost::visitor_ptr(&fc<X<1> >), q); boost::apply_visitor(boost::visitor_ptr(&fz<X<1> >), q); }
  { boost::variant<int&, X<1> > q(i), w(q), e(x); One g; boost::apply_visitor(g, q); (void)boost::get<int&>(q); use(&w); use(&e); } use(&ref); boost::bad_get bg; boost::bad_visit bv; boost::bad_polymorphic_get bp; (void)bg.what(); (void)bv.what(); (void)bp.what();
  boost::recursive_wrapper<Nd> w1, w2(n), w3(w1), w4(std::move(w2)), w5(std::move(n)); w1 = w3; w1 = std::move(w4); w1 = n; w1 = std::move(n); w1.swap(w5); swap(w1, w5); (void)w1.get_pointer();
}
extern "C" void drv_done() { vsa_cover("done"); }
