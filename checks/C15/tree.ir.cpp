//@std 17 11
//@std+ 14 20 2b
//@config mrv: -DVSA_MRV
//@config node: -DVSA_NODE
//@config mrvo: -DVSA_MRV -DVSA_OVER
//@cover all:done any:threw any:oom
#define VSA_MAIN
#include "kit.h"
#include <boost/mpl/vector.hpp>
using boost::recursive_wrapper; using boost::get;
#if defined(VSA_MRV)
// make_recursive_variant with a template over the variant; children owned through pointers
template <class T> struct Pair { T *l, *r; Pair(const T& a, const T& b) : l(new T(a)), r(0) { try { r = new T(b); } catch (...) { delete l; throw; } }
  Pair(const Pair& o) : l(new T(*o.l)), r(0) { try { r = new T(*o.r); } catch (...) { delete l; throw; } }
  Pair& operator=(const Pair& o) { Pair t(o); std::swap(l, t.l); std::swap(r, t.r); return *this; } ~Pair() { delete l; delete r; } T& left() { return *l; } T& right() { return *r; } const T& left() const { return *l; } const T& right() const { return *r; } };
#ifdef VSA_OVER
typedef boost::make_recursive_variant_over<boost::mpl::vector<X<0>, int, Pair<boost::recursive_variant_> > >::type E;
#else
typedef boost::make_recursive_variant<X<0>, int, Pair<boost::recursive_variant_> >::type E;
#endif
typedef Pair<E> Bin;
#elif defined(VSA_NODE)
// wrapped type is the first one, and the other alternatives can all throw
struct Bin; typedef boost::variant<recursive_wrapper<Bin>, X<0>, M<1> > E;
struct Bin { E l, r; Bin(const E& a, const E& b) : l(a), r(b) {} E& left() { return l; } E& right() { return r; } const E& left() const { return l; } const E& right() const { return r; } };
#else
struct Bin; typedef boost::variant<X<0>, int, recursive_wrapper<Bin> > E;
struct Bin { E l, r; Bin(const E& a, const E& b) : l(a), r(b) {} E& left() { return l; } E& right() { return r; } const E& left() const { return l; } const E& right() const { return r; } };
#endif
// fingerprint of the whole tree
struct Fp : boost::static_visitor<tok> { tok operator()(const Bin& b) const { return vsa_term2(OP_CALL, boost::apply_visitor(*this, b.left()), boost::apply_visitor(*this, b.right())); } template <class T> tok operator()(const T& x) const { return vsa_term1(OP_HASH, VT<T>::val(x)); } };
static tok fp(const E& e) { return boost::apply_visitor(Fp(), e); }
struct Mut : boost::static_visitor<void> { void operator()(Bin& b) const { boost::apply_visitor(*this, b.left()); boost::apply_visitor(*this, b.right()); } void operator()(int& i) const { i = vsa_int(); } template <class T> void operator()(T& x) const { vsa_settok(&x, T::id, vsa_fresh()); } };
static E leaf() { return E(X<0>(X<0>::mk(), vsa_fresh())); }
#ifdef VSA_NODE
static E leaf2() { return E(M<1>(M<1>::mk(), vsa_fresh())); }
#else
static E leaf2() { return E(vsa_int()); }
#endif
static E mk(int shape) { switch (shape) { case 0: return leaf(); case 1: return leaf2(); case 2: return E(Bin(leaf(), leaf2())); default: { E c(Bin(leaf(), leaf())); return E(Bin(leaf2(), c)); } } }
static void on() { vsa_throw_mode = 1; vsa_alloc_mode(1); } static void off() { vsa_throw_mode = 0; vsa_alloc_mode(0); }
static void ok_(const E& e) { CHECKM(e.which() >= 0 && e.which() < 3, "valid index"); (void)fp(e); }
extern "C" void drv_copy() { E a(mk(vsa_choose(4))); tok f = fp(a); bool ok = false; vsa_freeze(&a, sizeof a);
  try { on(); const E& ca = a; E b(ca); off(); ok = true; vsa_unfreeze(&a, sizeof a); CHECK_SAME(fp(b), f, "a copy has the same structure and values"); CHECKM(b.which() == a.which(), "same type"); boost::apply_visitor(Mut(), b); CHECK_SAME(fp(a), f, "copies are independent"); vsa_cover("done"); } catch (Boom&) { off(); vsa_cover("threw"); } catch (std::bad_alloc&) { off(); vsa_cover("oom"); }
  if (!ok) vsa_unfreeze(&a, sizeof a); CHECK_SAME(fp(a), f, "the source of a copy is unchanged"); }
extern "C" void drv_assign() { E a(mk(vsa_choose(4))), b(mk(vsa_choose(3))); tok f = fp(a); bool ok = false; vsa_freeze(&a, sizeof a);
  try { on(); const E& ca = a; b = ca; off(); ok = true; } catch (Boom&) { off(); vsa_cover("threw"); } catch (std::bad_alloc&) { off(); vsa_cover("oom"); }
  vsa_unfreeze(&a, sizeof a); ok_(b); if (ok) { CHECK_SAME(fp(b), f, "a copy has the same structure and values"); boost::apply_visitor(Mut(), b); vsa_cover("done"); } CHECK_SAME(fp(a), f, "copies are independent and the source unchanged"); }
extern "C" void drv_move() { E a(mk(vsa_choose(4))); tok f = fp(a); int w = a.which();
  try { on(); E b(std::move(a)); off(); CHECK_SAME(fp(b), f, "moving transfers the whole value"); CHECKM(b.which() == w, "same type"); ok_(b); vsa_cover("done"); } catch (Boom&) { off(); vsa_cover("threw"); } catch (std::bad_alloc&) { off(); vsa_cover("oom"); }
  CHECKM(a.which() == w, "a moved-from variant keeps its type"); ok_(a); a = leaf(); ok_(a); }
extern "C" void drv_move_assign() { E a(mk(vsa_choose(4))), b(mk(vsa_choose(3))); tok f = fp(a); int w = a.which();
  try { on(); b = std::move(a); off(); CHECK_SAME(fp(b), f, "moving transfers the whole value"); CHECKM(b.which() == w, "same type"); vsa_cover("done"); } catch (Boom&) { off(); vsa_cover("threw"); } catch (std::bad_alloc&) { off(); vsa_cover("oom"); }
  CHECKM(a.which() == w, "a moved-from variant keeps its type"); ok_(a); ok_(b); }
extern "C" void drv_swap() { E a(mk(vsa_choose(4))), b(mk(vsa_choose(3))); tok f = fp(a), g = fp(b);
  try { on(); if (vsa_choose(2)) a.swap(b); else swap(a, b); off(); CHECK_SAME(fp(b), f, "swap exchanges the values"); CHECK_SAME(fp(a), g, "swap exchanges the values"); vsa_cover("done"); } catch (Boom&) { off(); vsa_cover("threw"); } catch (std::bad_alloc&) { off(); vsa_cover("oom"); }
  ok_(a); ok_(b); }
extern "C" void drv_from_value() { E x(leaf()), y(mk(vsa_choose(3))); Bin n(x, y); tok f = vsa_term2(OP_CALL, fp(x), fp(y)); E a(mk(vsa_choose(3))); int how = vsa_choose(4);
  try { on(); switch (how) { case 0: { const Bin& r = n; E e(r); off(); CHECK_SAME(fp(e), f, "construction from the wrapped type stores its value"); break; } case 1: { E e(std::move(n)); off(); CHECK_SAME(fp(e), f, "construction from the wrapped type stores its value"); break; } case 2: a = n; off(); CHECK_SAME(fp(a), f, "assignment from the wrapped type stores its value"); break; case 3: a = std::move(n); off(); CHECK_SAME(fp(a), f, "assignment from the wrapped type stores its value"); break; } vsa_cover("done"); }
  catch (Boom&) { off(); vsa_cover("threw"); } catch (std::bad_alloc&) { off(); vsa_cover("oom"); }
  ok_(a); if (how == 0 || how == 2) CHECK_SAME(vsa_term2(OP_CALL, fp(n.left()), fp(n.right())), f, "an lvalue argument is not modified"); }
// a child may be taken over by its parent's variable through a copy; get and visitation see Bin, not the wrapper
struct See : boost::static_visitor<int> { int operator()(const Bin&) const { return 2; } template <class T> int operator()(const recursive_wrapper<T>&) const { return 9; } template <class T> int operator()(const T&) const { return 1; } };
extern "C" void drv_see() { int s = vsa_choose(4); E a(mk(s)); CHECKM(boost::apply_visitor(See(), a) == (s >= 2 ? 2 : 1), "visitation sees the wrapped value, never the wrapper"); Bin* p = get<Bin>(&a); CHECKM((p != 0) == (s >= 2), "get sees the wrapped value"); CHECKM((&a.type() == &typeid(Bin)) == (s >= 2), "type() is the wrapped type");
  if (p) { E c(p->right()); tok f = fp(c); a = c; CHECK_SAME(fp(a), f, "a child can replace its parent through a copy"); E d(leaf()); E e(Bin(a, d)); tok g = fp(e); a = e; CHECK_SAME(fp(a), g, "a variant can become its own child through a copy"); } else ok_(a); vsa_cover("done"); }
