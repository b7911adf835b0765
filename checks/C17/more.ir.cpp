//@std 17
//@std+ 11 14 20 2b
//@args --lint-static
//@config l2: -DLS=2
//@config l3: -DLS=3
//@config l7: -DLS=7
//@config l8: -DLS=8
//@ignore LEAK-OBJECT LEAK-HEAP
//@cover all:done
#define VSA_MAIN
#include "kit.h"
#include <functional>
#include <ostream>
#include <boost/functional/hash.hpp>
#include <boost/variant/multivisitors.hpp>
#include <boost/variant/visitor_ptr.hpp>
#include <boost/variant/polymorphic_get.hpp>
// the const operations the other unit leaves out: hashing, n-ary and delayed visitation, visitor_ptr, streaming, lambdas
namespace boost { inline std::size_t hash_value(const blank&) { return 77; } }
struct Rd : boost::static_visitor<tok> { template <class T> tok operator()(const T& x) const { return VT<T>::val(x); }
  template <class T, class U> tok operator()(const T& x, const U& y) const { return VT<T>::val(x) + VT<U>::val(y); }
  template <class T, class U, class W> tok operator()(const T& x, const U& y, const W& z) const { return VT<T>::val(x) + VT<U>::val(y) + VT<W>::val(z); } };
struct RdB { template <class T> tok operator()(const T& x) const { return VT<T>::val(x); }
  template <class T, class U> tok operator()(const T& x, const U& y) const { return VT<T>::val(x) + VT<U>::val(y); }
  template <class T, class U, class W> tok operator()(const T& x, const U& y, const W& z) const { return VT<T>::val(x) + VT<U>::val(y) + VT<W>::val(z); } };
typedef std::basic_ostream<char> OS;
#define IO(F) template <int I> OS& operator<<(OS& o, const F<I>& x) { (void)x.t(); return o; }
IO(X) IO(XD) IO(N) IO(M) IO(C) IO(D) IO(CO) IO(W) IO(A) IO(S) IO(ND) IO(SW) IO(MO) IO(PV) IO(FI) IO(EM) IO(WW) IO(AL)
inline OS& operator<<(OS& o, const En&) { return o; } inline OS& operator<<(OS& o, const Pod&) { return o; } inline OS& operator<<(OS& o, const Pnd&) { return o; }
alignas(64) static char buf_[1024];
template <class T> tok fn(const T& x) { return VT<T>::val(x); } template <class T> tok fnv(T x) { return VT<T>::val(x); }
template <class K> struct Ptr { const typename K::V& v; template <class T> void operator()(tag<T>) const { try { (void)boost::apply_visitor(boost::visitor_ptr(&fn<T>), v); } catch (boost::bad_visit&) {} try { (void)boost::apply_visitor(boost::visitor_ptr(&fnv<T>), v); } catch (boost::bad_visit&) {} } };
template <class K> void reads() { typedef typename K::V V; V0(K, a); K::any_state(a); V0(K, b); K::any_type(b); V0(K, d); const V &c = a, &e = b, &f = d; St s = K::obs(a);
  vsa_freeze(&a, sizeof a); vsa_freeze(&b, sizeof b); vsa_freeze(&d, sizeof d); Rd r;
  switch (vsa_choose(6)) {
    case 0: (void)hash_value(c); (void)boost::hash<V>()(c); (void)std::hash<V>()(c); break;
    case 1: (void)boost::apply_visitor(r, c, e); (void)boost::apply_visitor(r)(c, e); break;
    case 2: (void)boost::apply_visitor(r, c, e, f); (void)boost::apply_visitor(r)(c, e, f); break;
    case 3: { Ptr<K> p = { c }; K::with(vsa_choose(K::n), p); break; }
    case 4: if (s.tracked) (void)(reinterpret_cast<OS&>(buf_) << c); break;
    case 5: {
#if __cplusplus >= 201402L
      RdB q; (void)boost::apply_visitor(q, c); (void)boost::apply_visitor(q, c, e); (void)boost::apply_visitor(q, c, e, f); (void)boost::apply_visitor(q)(c); (void)boost::apply_visitor([](const auto& x) -> tok { return VT<typename std::decay<decltype(x)>::type>::val(x); }, c);
#endif
      break; }
  }
  vsa_unfreeze(&d, sizeof d); vsa_unfreeze(&b, sizeof b); vsa_unfreeze(&a, sizeof a); K::same_content(K::obs(a), s, "a read-only operation leaves the operand as it was"); vsa_cover("done"); }
FOR_LISTS(reads, reads)
