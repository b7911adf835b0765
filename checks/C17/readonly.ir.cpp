//@std 17
//@std+ 11 14 20 2b
//@args --lint-static
//@config l1: -DLS=1
//@config l2: -DLS=2
//@config l3: -DLS=3
//@config l7: -DLS=7
//@config l10: -DLS=10
//@config l8: -DLS=8
//@config l5: -DLS=5
//@ignore LEAK-OBJECT LEAK-HEAP
//@cover all:done
#define VSA_MAIN
#include "kit.h"
#include <boost/variant/polymorphic_get.hpp>
// while an operand is frozen, any write to its storage, to an object it owns, to a heap block it owns or to a global
// variable is a violation - also one that stores the value already there
static void on() { vsa_throw_mode = 1; vsa_alloc_mode(1); } static void off() { vsa_throw_mode = 0; vsa_alloc_mode(0); }
struct Rd : boost::static_visitor<tok> { template <class T> tok operator()(const T& x) const { return VT<T>::val(x); } template <class T, class U> tok operator()(const T& x, const U& y) const { return VT<T>::val(x) + VT<U>::val(y); } template <class T, class U, class W> tok operator()(const T& x, const U& y, const W& z) const { return VT<T>::val(x) + VT<U>::val(y) + VT<W>::val(z); } };
template <class K> struct Gets { const typename K::V& v; template <class T> void operator()(tag<T>) const {
  (void)boost::get<T>(&v); (void)boost::relaxed_get<T>(&v); (void)boost::polymorphic_get<T>(&v); (void)boost::strict_get<T>(&v);
  try { (void)boost::get<T>(v); } catch (boost::bad_get&) {} try { (void)boost::polymorphic_get<T>(v); } catch (boost::bad_polymorphic_get&) {} try { (void)boost::relaxed_get<T>(v); } catch (boost::bad_get&) {} } };
template <class K> void reads() { typedef typename K::V V; V0(K, a); K::any_state(a); St s = K::obs(a); const V& c = a; vsa_freeze(&a, sizeof a);
  switch (vsa_choose(5)) {
    case 0: (void)c.which(); (void)c.empty(); (void)&c.type(); break;
    case 1: { Rd r; (void)boost::apply_visitor(r, c); (void)boost::apply_visitor(Rd(), c); (void)boost::apply_visitor(r)(c); break; }
    case 2: { Gets<K> g = { c }; K::with(vsa_choose(K::n), g); break; }
    case 3: (void)(c == c); (void)(c < c); (void)(c != c); (void)(c <= c); (void)(c > c); (void)(c >= c); break;
    case 4: { on(); try { V d(c); off(); (void)d.which(); } catch (Boom&) { off(); } catch (std::bad_alloc&) { off(); } break; }
  }
  vsa_unfreeze(&a, sizeof a); K::same_content(K::obs(a), s, "a read-only operation leaves the operand as it was"); vsa_cover("done"); }
template <class K> void reads2() { typedef typename K::V V; V0(K, a); K::any_state(a); V0(K, b); K::any_state(b); const V &c = a, &d = b; vsa_freeze(&a, sizeof a); vsa_freeze(&b, sizeof b);
  switch (vsa_choose(3)) { case 0: { Rd r; (void)boost::apply_visitor(r, c, d); break; } case 1: (void)(c == d); (void)(c != d); (void)(c < d); break; case 2: (void)(c > d); (void)(c <= d); (void)(c >= d); break; }
  vsa_unfreeze(&b, sizeof b); vsa_unfreeze(&a, sizeof a); vsa_cover("done"); }
// operations on one variant never touch a distinct one (nor a copy made from it), and share no static state
template <class K> struct Asg { typename K::V& v; template <class T> void operator()(tag<T>) const { T x(VT<T>::make(vsa_fresh())); v = x; } };
template <class K> void distinct() { typedef typename K::V V; V0(K, a); K::any_state(a); V b(a); K::any_type(b); vsa_freeze(&a, sizeof a); on();
  try { switch (vsa_choose(4)) { case 0: { V c(b); b = std::move(c); break; } case 1: { Asg<K> f = { b }; K::with(vsa_choose(K::n), f); break; } case 2: { V c(b); c.swap(b); break; } case 3: b = a; break; } } catch (Boom&) {} catch (std::bad_alloc&) {}
  off(); K::scramble(b); vsa_unfreeze(&a, sizeof a); K::valid(a); vsa_cover("done"); }
FOR_LISTS(reads, reads)
FOR_LISTS(reads2, reads2)
FOR_LISTS(distinct, distinct)
