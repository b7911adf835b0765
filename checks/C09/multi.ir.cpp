//@std 17 11 14
//@std+ 20 2b
//@config p1: -DVSA_P=1
//@config p2: -DVSA_P=2
//@ignore LEAK-OBJECT LEAK-HEAP
//@cover all:done
#define VSA_MAIN
#include "visitors.h"
#include <boost/variant/multivisitors.hpp>
#ifndef VSA_P
#define VSA_P 0
#endif
struct Arg { int id, cat; const void* addr; tok val; };
struct MRec { int calls, n, was_const; Arg a[6]; int slot; MRec() noexcept : calls(0), n(0), was_const(-1), slot(0) {}
  template <class T> void one(const typename bare<T>::type& x) { if (n < 6) { typedef typename bare<T>::type U; Arg q = { VT<U>::id, cat_of<T>::v, std::addressof(x), VT<U>::val(x) }; a[n] = q; } ++n; }
  tok fold(int k) const { tok t = 0; for (int i = 0; i < k; ++i) t = vsa_term2(OP_CALL, t, a[i].val); return t; }
  template <class A, class B> tok note(A&& x, B&& y, int c) { ++calls; was_const = c; one<A>(x); one<B>(y); return fold(2); }
  template <class A, class B, class C_> tok note(A&& x, B&& y, C_&& z, int c) { ++calls; was_const = c; one<A>(x); one<B>(y); one<C_>(z); return fold(3); }
  template <class A, class B, class C_, class D_> tok note(A&& x, B&& y, C_&& z, D_&& w, int c) { ++calls; was_const = c; one<A>(x); one<B>(y); one<C_>(z); one<D_>(w); return fold(4); }
  template <class A, class B, class C_, class D_, class E> tok note(A&& x, B&& y, C_&& z, D_&& w, E&& u, int c) { ++calls; was_const = c; one<A>(x); one<B>(y); one<C_>(z); one<D_>(w); one<E>(u); return fold(5); }
  template <class A, class B, class C_, class D_, class E, class F> tok note(A&& x, B&& y, C_&& z, D_&& w, E&& u, F&& q, int c) { ++calls; was_const = c; one<A>(x); one<B>(y); one<C_>(z); one<D_>(w); one<E>(u); one<F>(q); return fold(6); } };
struct Vis : MRec, boost::static_visitor<tok> {
  template <class... T> tok operator()(T&&... x) { return note(std::forward<T>(x)..., 0); }
  template <class... T> tok operator()(T&&... x) const { return const_cast<Vis*>(this)->note(std::forward<T>(x)..., 1); } };
struct VisRef : MRec, boost::static_visitor<int&> { template <class... T> int& operator()(T&&... x) const { VisRef* s = const_cast<VisRef*>(this); s->note(std::forward<T>(x)..., 1); return s->slot; } };
struct VisVoid : MRec, boost::static_visitor<> { template <class... T> void operator()(T&&... x) const { const_cast<VisVoid*>(this)->note(std::forward<T>(x)..., 1); } };
struct VisBare : MRec {                                       // no result_type
  template <class... T> tok operator()(T&&... x) { return note(std::forward<T>(x)..., 0); }
  template <class... T> tok operator()(T&&... x) const { return const_cast<VisBare*>(this)->note(std::forward<T>(x)..., 1); } };
typedef Kit<X<0>, N<1>, M<2> > K1; typedef Kit<N<3>, X<4> > K2; typedef Kit<int, boost::recursive_wrapper<X<6> > > K3; typedef Kit<M<7>, N<8> > K4;
static void arg(const MRec& r, int i, const St& s, int cat, bool addr) { CHECKM(r.a[i].id == s.id, "each argument is the content of the variant at its position"); CHECK_SAME(r.a[i].val, s.val, "each argument has the value of the variant at its position");
  if (addr) CHECKM(r.a[i].addr == s.addr, "each argument is the stored object itself"); if (cat) CHECKM(r.a[i].cat == cat, "each argument has its variant's constness and value category"); }
static tok ret2(const St& a, const St& b) { return vsa_term2(OP_CALL, vsa_term2(OP_CALL, 0, a.val), b.val); }
static void fin(const MRec& r, int n) { CHECKM(r.calls == 1, "the visitor is called exactly once"); CHECKM(r.n == n, "the visitor is called with one argument per variant"); }
#define RETS(t, e) CHECK_SAME(t, e, "apply_visitor returns what the visitor returned")
template <class KA_, class KB_> void binary() {
  V0(KA_, a); KA_::any_state(a); V0(KB_, b); KB_::any_state(b); St s = KA_::obs(a), t = KB_::obs(b); const typename KA_::V& ca = a; const typename KB_::V& cb = b;
  switch (vsa_choose(13)) {
    case 0: { Vis v; tok r = boost::apply_visitor(v, a, b); fin(v, 2); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_L, 1); RETS(r, ret2(s, t)); CHECKM(!v.was_const, "non-const visitor"); break; }
    case 1: { const Vis v; tok r = boost::apply_visitor(v, a, b); fin(v, 2); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_L, 1); RETS(r, ret2(s, t)); CHECKM(v.was_const, "const visitor"); break; }
    case 2: { Vis v; tok r = boost::apply_visitor(v, ca, b); fin(v, 2); arg(v, 0, s, CAT_CL, 1); arg(v, 1, t, CAT_L, 1); RETS(r, ret2(s, t)); break; }
    case 3: { Vis v; tok r = boost::apply_visitor(v, a, cb); fin(v, 2); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_CL, 1); RETS(r, ret2(s, t)); break; }
    case 4: { const Vis v; tok r = boost::apply_visitor(v, ca, cb); fin(v, 2); arg(v, 0, s, CAT_CL, 1); arg(v, 1, t, CAT_CL, 1); RETS(r, ret2(s, t)); break; }
    case 5: { Vis v; tok r = boost::apply_visitor(v, std::move(a), std::move(b)); fin(v, 2); arg(v, 0, s, CAT_R, 1); arg(v, 1, t, CAT_R, 1); RETS(r, ret2(s, t)); break; }
    case 6: { Vis v; tok r = boost::apply_visitor(v, std::move(a), b); fin(v, 2); arg(v, 0, s, CAT_R, 1); arg(v, 1, t, CAT_L, 1); RETS(r, ret2(s, t)); break; }
    case 7: { Vis v; tok r = boost::apply_visitor(v, a, std::move(b)); fin(v, 2); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_R, 1); RETS(r, ret2(s, t)); break; }
    case 8: { VisRef v; int& r = boost::apply_visitor(v, a, b); fin(v, 2); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_L, 1); CHECKM(&r == &v.slot, "a reference result is returned as that reference"); break; }
    case 9: { VisVoid v; boost::apply_visitor(v, ca, cb); fin(v, 2); arg(v, 0, s, CAT_CL, 1); arg(v, 1, t, CAT_CL, 1); break; }
    case 10: { Vis v; tok r = boost::apply_visitor(v)(a, b); fin(v, 2); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_L, 1); RETS(r, ret2(s, t)); break; }
    case 11: { Vis v; tok r = boost::apply_visitor(v)(ca, cb); fin(v, 2); arg(v, 0, s, CAT_CL, 1); arg(v, 1, t, CAT_CL, 1); RETS(r, ret2(s, t)); break; }
    case 12: { Vis v; tok r = boost::apply_visitor(v, a, a); fin(v, 2); arg(v, 0, s, CAT_L, 1); arg(v, 1, s, CAT_L, 1); RETS(r, ret2(s, s)); break; }
  }
  KA_::valid(a); KB_::valid(b); vsa_cover("done");
}
template <class KA_, class KB_, class KC_> void ternary() {
  V0(KA_, a); KA_::any_state(a); V0(KB_, b); KB_::any_state(b); V0(KC_, c); KC_::any_state(c); St s = KA_::obs(a), t = KB_::obs(b), u = KC_::obs(c);
  const typename KA_::V& ca = a; const typename KB_::V& cb = b; const typename KC_::V& cc = c;
  tok e = vsa_term2(OP_CALL, ret2(s, t), u.val);
  switch (vsa_choose(8)) {
    case 0: { Vis v; tok r = boost::apply_visitor(v, a, b, c); fin(v, 3); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_L, 1); arg(v, 2, u, CAT_L, 1); RETS(r, e); break; }
    case 1: { const Vis v; tok r = boost::apply_visitor(v, ca, cb, cc); fin(v, 3); arg(v, 0, s, CAT_CL, 1); arg(v, 1, t, CAT_CL, 1); arg(v, 2, u, CAT_CL, 1); RETS(r, e); break; }
    case 2: { Vis v; tok r = boost::apply_visitor(v, a, cb, c); fin(v, 3); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_CL, 1); arg(v, 2, u, CAT_L, 1); RETS(r, e); break; }
    case 3: { Vis v; tok r = boost::apply_visitor(v, std::move(a), std::move(b), std::move(c)); fin(v, 3); arg(v, 0, s, CAT_R, 0); arg(v, 1, t, CAT_R, 0); arg(v, 2, u, CAT_R, 0); RETS(r, e); break; }
    case 4: { Vis v; tok r = boost::apply_visitor(v)(a, b, c); fin(v, 3); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_L, 1); arg(v, 2, u, CAT_L, 1); RETS(r, e); break; }
    case 5: { VisRef v; int& r = boost::apply_visitor(v, a, b, c); fin(v, 3); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_L, 1); arg(v, 2, u, CAT_L, 1); CHECKM(&r == &v.slot, "a reference result is returned as that reference"); break; }
    case 6: { VisVoid v; boost::apply_visitor(v, a, b, cc); fin(v, 3); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_L, 1); arg(v, 2, u, CAT_CL, 1); break; }
    case 7: { Vis v; tok r = boost::apply_visitor(v, a, std::move(b), cc); fin(v, 3); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_R, 0); arg(v, 2, u, CAT_CL, 1); RETS(r, e); break; }
  }
  KA_::valid(a); KB_::valid(b); KC_::valid(c); vsa_cover("done");
}
// variants that all have the same type (so that nothing but the position tells them apart), in every arity
template <class K, class VIS> void same_types(VIS* pv) { VIS& v = *pv;
  V0(K, a); K::any_type(a); V0(K, b); K::any_type(b); V0(K, c); K::any_type(c); V0(K, d); K::any_type(d); St s = K::obs(a), t = K::obs(b), u = K::obs(c), w = K::obs(d); tok e2 = ret2(s, t), e3 = vsa_term2(OP_CALL, e2, u.val), e4 = vsa_term2(OP_CALL, e3, w.val);
  switch (vsa_choose(6)) {
    case 0: { tok r = boost::apply_visitor(v, a, b, c, d); fin(v, 4); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_L, 1); arg(v, 2, u, CAT_L, 1); arg(v, 3, w, CAT_L, 1); RETS(r, e4); break; }
    case 1: { tok r = boost::apply_visitor(v, d, c, b, a); fin(v, 4); arg(v, 0, w, CAT_L, 1); arg(v, 1, u, CAT_L, 1); arg(v, 2, t, CAT_L, 1); arg(v, 3, s, CAT_L, 1); (void)r; break; }
    case 2: { const typename K::V &ca = a, &cb = b, &cc = c, &cd = d; tok r = boost::apply_visitor(v, ca, cb, cc, cd); fin(v, 4); arg(v, 0, s, CAT_CL, 1); arg(v, 1, t, CAT_CL, 1); arg(v, 2, u, CAT_CL, 1); arg(v, 3, w, CAT_CL, 1); RETS(r, e4); break; }
    case 3: { tok r = boost::apply_visitor(v, a, b, c, d, a, b); fin(v, 6); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_L, 1); arg(v, 2, u, CAT_L, 1); arg(v, 3, w, CAT_L, 1); arg(v, 4, s, CAT_L, 1); arg(v, 5, t, CAT_L, 1); (void)r; break; }
    case 4: { tok r = boost::apply_visitor(v, a, b, c, d, c); fin(v, 5); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_L, 1); arg(v, 2, u, CAT_L, 1); arg(v, 3, w, CAT_L, 1); arg(v, 4, u, CAT_L, 1); (void)r; break; }
    case 5: { tok r = boost::apply_visitor(v)(a, b, c, d); fin(v, 4); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_L, 1); arg(v, 2, u, CAT_L, 1); arg(v, 3, w, CAT_L, 1); RETS(r, e4); break; }
  }
  (void)e3; vsa_cover("done"); }
#if VSA_P == 0
extern "C" void drv_bin12() { binary<K1, K2>(); } extern "C" void drv_bin11() { binary<K1, K1>(); } extern "C" void drv_bin23() { binary<K2, K3>(); }
extern "C" void drv_tern() { ternary<K1, K2, K3>(); }
#elif VSA_P == 1
// move-only contents, and delayed visitors held as const objects
#ifndef VSA_NO_RVALUE_ASSIGN
typedef KitM<MO<0>, N<1> > KQ;
extern "C" void drv_moveonly() { V0_(KQ, a); KQ::any_type(a); V0_(KQ, b); KQ::any_type(b); V0_(KQ, c); KQ::any_type(c); V0_(KQ, d); KQ::any_type(d); St s = KQ::obs(a), t = KQ::obs(b), u = KQ::obs(c), w = KQ::obs(d); Vis v;
  switch (vsa_choose(5)) {
    case 0: { boost::apply_visitor(v, a, b, c); fin(v, 3); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_L, 1); arg(v, 2, u, CAT_L, 1); break; }
    case 1: { boost::apply_visitor(v, std::move(a), std::move(b), std::move(c)); fin(v, 3); arg(v, 0, s, CAT_R, 0); arg(v, 1, t, CAT_R, 0); arg(v, 2, u, CAT_R, 0); break; }
    case 2: { boost::apply_visitor(v, std::move(a), b, std::move(c), std::move(d)); fin(v, 4); arg(v, 0, s, CAT_R, 0); arg(v, 1, t, CAT_L, 1); arg(v, 2, u, CAT_R, 0); arg(v, 3, w, CAT_R, 0); break; }
    case 3: { boost::apply_visitor(v, std::move(a), std::move(b)); fin(v, 2); arg(v, 0, s, CAT_R, 0); arg(v, 1, t, CAT_R, 0); break; }
    case 4: { boost::apply_visitor(v)(a, b, c); fin(v, 3); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_L, 1); arg(v, 2, u, CAT_L, 1); break; }
  }
  vsa_cover("done"); }
#endif
extern "C" void drv_delayed_const() { V0_(K1, a); K1::any_type(a); V0_(K2, b); K2::any_type(b); St s = K1::obs(a), t = K2::obs(b); Vis v; const boost::apply_visitor_delayed_t<Vis> d = boost::apply_visitor(v); tok r = d(a, b); fin(v, 2); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_L, 1); RETS(r, ret2(s, t)); CHECKM(!v.was_const, "the delayed visitor calls the visitor it was given"); vsa_cover("done"); }
extern "C" void drv_four_same() { Vis v; same_types<K4>(&v); }
extern "C" void drv_tern_same() { ternary<K2, K2, K2>(); }
extern "C" void drv_four() {
  V0_(K1, a); K1::any_type(a); V0_(K2, b); K2::any_type(b); V0_(K3, c); K3::any_type(c); V0_(K4, d); K4::any_type(d); St s = K1::obs(a), t = K2::obs(b), u = K3::obs(c), w = K4::obs(d);
  const K2::V& cb = b; tok e = vsa_term2(OP_CALL, vsa_term2(OP_CALL, ret2(s, t), u.val), w.val);
  switch (vsa_choose(3)) {
    case 0: { Vis v; tok r = boost::apply_visitor(v, a, b, c, d); fin(v, 4); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_L, 1); arg(v, 2, u, CAT_L, 1); arg(v, 3, w, CAT_L, 1); RETS(r, e); break; }
    case 1: { const Vis v; tok r = boost::apply_visitor(v, a, cb, c, d); fin(v, 4); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_CL, 1); arg(v, 2, u, CAT_L, 1); arg(v, 3, w, CAT_L, 1); RETS(r, e); break; }
    case 2: { Vis v; tok r = boost::apply_visitor(v)(a, b, c, d); fin(v, 4); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_L, 1); arg(v, 2, u, CAT_L, 1); arg(v, 3, w, CAT_L, 1); RETS(r, e); break; }
  }
  vsa_cover("done"); }
extern "C" void drv_five() {
  V0_(K4, a); K4::any_type(a); V0_(K2, b); K2::any_type(b); V0_(K2, c); K2::any_type(c); V0_(K4, d); K4::any_type(d); V0_(K2, f); K2::any_type(f); St s = K4::obs(a), t = K2::obs(b), u = K2::obs(c), w = K4::obs(d), x = K2::obs(f);
  tok e = vsa_term2(OP_CALL, vsa_term2(OP_CALL, vsa_term2(OP_CALL, ret2(s, t), u.val), w.val), x.val);
  Vis v; tok r = boost::apply_visitor(v, a, b, c, d, f); fin(v, 5); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_L, 1); arg(v, 2, u, CAT_L, 1); arg(v, 3, w, CAT_L, 1); arg(v, 4, x, CAT_L, 1); RETS(r, e); vsa_cover("done"); }
extern "C" void drv_delayed_unary() { V0_(K1, a); K1::any_state(a); St s = K1::obs(a); Rec r; tok t = boost::apply_visitor(r)(a); called<K1>(r, s, CAT_L); RETS(t, vsa_term1(OP_CALL, s.val));
  const K1::V& ca = a; Rec2 q; tok z = boost::apply_visitor(q)(ca); called<K1>(q, s, CAT_CL); RETS(z, vsa_term1(OP_CALL, s.val)); CHECKM(!q.was_const, "the delayed visitor calls the visitor it was given"); vsa_cover("done"); }
#elif __cplusplus < 201402L
extern "C" void drv_none() { vsa_cover("done"); }
#elif VSA_P == 2
template <class KA_, class KB_> void lambda2() {
  V0(KA_, a); KA_::any_state(a); V0(KB_, b); KB_::any_state(b); St s = KA_::obs(a), t = KB_::obs(b); const typename KA_::V& ca = a; const typename KB_::V& cb = b; MRec m; int slot = 0; tok e = ret2(s, t);
  auto f = [&m](auto&& x, auto&& y) -> tok { return m.note(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y), 0); };
  auto g = [&](auto&& x, auto&& y) -> int& { m.note(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y), 0); return slot; };
  const auto cf = f;
  switch (vsa_choose(15)) {
    case 0: { tok r = boost::apply_visitor(f, a, b); fin(m, 2); arg(m, 0, s, CAT_L, 1); arg(m, 1, t, CAT_L, 1); RETS(r, e); break; }
    case 1: { tok r = boost::apply_visitor(cf, ca, b); fin(m, 2); arg(m, 0, s, CAT_CL, 1); arg(m, 1, t, CAT_L, 1); RETS(r, e); break; }
    case 2: { tok r = boost::apply_visitor(f, a, cb); fin(m, 2); arg(m, 0, s, CAT_L, 1); arg(m, 1, t, CAT_CL, 1); RETS(r, e); break; }
    case 3: { int& r = boost::apply_visitor(g, a, b); fin(m, 2); arg(m, 0, s, CAT_L, 1); arg(m, 1, t, CAT_L, 1); CHECKM(&r == &slot, "a reference result is returned as that reference"); break; }
    case 4: { tok r = boost::apply_visitor([&m](auto&& x, auto&& y) -> tok { return m.note(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y), 0); }, a, b); fin(m, 2); arg(m, 0, s, CAT_L, 1); arg(m, 1, t, CAT_L, 1); RETS(r, e); break; }
    case 5: { tok r = boost::apply_visitor(f)(a, b); fin(m, 2); arg(m, 0, s, CAT_L, 1); arg(m, 1, t, CAT_L, 1); RETS(r, e); break; }
    case 6: { auto h = [&m](auto& x) -> tok { m.note(x, x, 0); return m.a[0].val; }; tok r = boost::apply_visitor(h)(a); CHECKM(m.calls == 1, "called once"); arg(m, 0, s, CAT_L, 1); RETS(r, s.val); break; }
    case 7: { tok r = boost::apply_visitor(f, std::move(a), std::move(b)); fin(m, 2); arg(m, 0, s, CAT_R, 1); arg(m, 1, t, CAT_R, 1); RETS(r, e); break; }
    case 8: { tok r = boost::apply_visitor(f, std::move(a), b); fin(m, 2); arg(m, 0, s, CAT_R, 1); arg(m, 1, t, CAT_L, 1); RETS(r, e); break; }
    case 9: { tok r = boost::apply_visitor(f, a, std::move(b)); fin(m, 2); arg(m, 0, s, CAT_L, 1); arg(m, 1, t, CAT_R, 1); RETS(r, e); break; }
    case 10: { tok r = boost::apply_visitor(cf, std::move(a), cb); fin(m, 2); arg(m, 0, s, CAT_R, 1); arg(m, 1, t, CAT_CL, 1); RETS(r, e); break; }
    case 11: { tok r = boost::apply_visitor(f, std::move(ca), std::move(b)); fin(m, 2); arg(m, 0, s, CAT_CR, 1); arg(m, 1, t, CAT_R, 1); RETS(r, e); break; }
    case 12: { VisBare v; tok r = boost::apply_visitor(v, a, b); fin(v, 2); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_L, 1); RETS(r, e); CHECKM(v.was_const == 0, "the visitor is called with its own constness"); break; }
    case 13: { const VisBare v; tok r = boost::apply_visitor(v, ca, b); fin(v, 2); arg(v, 0, s, CAT_CL, 1); arg(v, 1, t, CAT_L, 1); RETS(r, e); CHECKM(v.was_const == 1, "the visitor is called with its own constness"); break; }
    case 14: { VisBare v; tok r = boost::apply_visitor(v, std::move(a), std::move(b)); fin(v, 2); arg(v, 0, s, CAT_R, 1); arg(v, 1, t, CAT_R, 1); RETS(r, e); CHECKM(v.was_const == 0, "the visitor is called with its own constness"); break; }
  }
  KA_::valid(a); KB_::valid(b); vsa_cover("done");
}
template <class KA_, class KB_, class KC_> void lambda3() {
  V0(KA_, a); KA_::any_type(a); V0(KB_, b); KB_::any_type(b); V0(KC_, c); KC_::any_state(c); St s = KA_::obs(a), t = KB_::obs(b), u = KC_::obs(c); MRec m; int slot = 0; tok e = vsa_term2(OP_CALL, ret2(s, t), u.val);
  auto f = [&m](auto&& x, auto&& y, auto&& z) -> tok { return m.note(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y), std::forward<decltype(z)>(z), 0); };
  auto g = [&](auto& x, auto& y, auto& z) -> int& { m.note(x, y, z, 0); return slot; };
  const typename KB_::V& cb = b;
  switch (vsa_choose(7)) {
    case 0: { tok r = boost::apply_visitor(f, a, b, c); fin(m, 3); arg(m, 0, s, CAT_L, 1); arg(m, 1, t, CAT_L, 1); arg(m, 2, u, CAT_L, 1); RETS(r, e); break; }
    case 1: { int& r = boost::apply_visitor(g, a, cb, c); fin(m, 3); arg(m, 0, s, CAT_L, 1); arg(m, 1, t, CAT_CL, 1); arg(m, 2, u, CAT_L, 1); CHECKM(&r == &slot, "a reference result is returned as that reference"); break; }
    case 2: { const auto cf = f; tok r = boost::apply_visitor(cf, a, b, c); fin(m, 3); arg(m, 0, s, CAT_L, 1); arg(m, 1, t, CAT_L, 1); arg(m, 2, u, CAT_L, 1); RETS(r, e); break; }
    case 3: { tok r = boost::apply_visitor(f)(a, b, c); fin(m, 3); arg(m, 0, s, CAT_L, 1); arg(m, 1, t, CAT_L, 1); arg(m, 2, u, CAT_L, 1); RETS(r, e); break; }
    case 4: { tok r = boost::apply_visitor(f, std::move(a), std::move(b), std::move(c)); fin(m, 3); arg(m, 0, s, CAT_R, 0); arg(m, 1, t, CAT_R, 0); arg(m, 2, u, CAT_R, 0); RETS(r, e); break; }
    case 5: { tok r = boost::apply_visitor(f, a, std::move(b), c); fin(m, 3); arg(m, 0, s, CAT_L, 1); arg(m, 1, t, CAT_R, 0); arg(m, 2, u, CAT_L, 1); RETS(r, e); break; }
    case 6: { VisBare v; tok r = boost::apply_visitor(v, a, cb, c); fin(v, 3); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_CL, 1); arg(v, 2, u, CAT_L, 1); RETS(r, e); CHECKM(!v.was_const, "the visitor is called with its own constness"); break; }
  }
  KA_::valid(a); KB_::valid(b); KC_::valid(c); vsa_cover("done");
}
#ifndef VSA_NO_RVALUE_ASSIGN
typedef KitM<MO<0>, N<1> > KQ;
extern "C" void drv_lambda_moveonly() { V0_(KQ, a); KQ::any_type(a); V0_(KQ, b); KQ::any_type(b); V0_(KQ, c); KQ::any_type(c); V0_(KQ, d); KQ::any_type(d); St s = KQ::obs(a), t = KQ::obs(b), u = KQ::obs(c), w = KQ::obs(d); VisBare v;
  switch (vsa_choose(4)) {
    case 0: { boost::apply_visitor(v, a, b, c); fin(v, 3); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_L, 1); arg(v, 2, u, CAT_L, 1); break; }
    case 1: { boost::apply_visitor(v, std::move(a), std::move(b), std::move(c)); fin(v, 3); arg(v, 0, s, CAT_R, 0); arg(v, 1, t, CAT_R, 0); arg(v, 2, u, CAT_R, 0); break; }
    case 2: { boost::apply_visitor(v, std::move(a), b, std::move(c), std::move(d)); fin(v, 4); arg(v, 0, s, CAT_R, 0); arg(v, 1, t, CAT_L, 1); arg(v, 2, u, CAT_R, 0); arg(v, 3, w, CAT_R, 0); break; }
    case 3: { boost::apply_visitor(v, std::move(a), std::move(b)); fin(v, 2); arg(v, 0, s, CAT_R, 0); arg(v, 1, t, CAT_R, 0); break; }
  }
  vsa_cover("done"); }
#endif
extern "C" void drv_delayed_const14() { V0_(K1, a); K1::any_type(a); V0_(K2, b); K2::any_type(b); St s = K1::obs(a), t = K2::obs(b); VisBare v; const auto d = boost::apply_visitor(v); tok r = d(a, b); fin(v, 2); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_L, 1); RETS(r, ret2(s, t)); CHECKM(!v.was_const, "the delayed visitor calls the visitor it was given"); vsa_cover("done"); }
extern "C" void drv_lambda_same() { VisBare v; same_types<K4>(&v); }
extern "C" void drv_lambda4() {
  V0_(K1, a); K1::any_type(a); V0_(K2, b); K2::any_type(b); V0_(K3, c); K3::any_type(c); V0_(K4, d); K4::any_type(d); St s = K1::obs(a), t = K2::obs(b), u = K3::obs(c), w = K4::obs(d); const K2::V& cb = b; const K4::V& cd = d; MRec m; int slot = 0; tok e = vsa_term2(OP_CALL, vsa_term2(OP_CALL, ret2(s, t), u.val), w.val);
  auto f = [&m](auto&&... x) -> tok { return m.note(std::forward<decltype(x)>(x)..., 0); }; auto g = [&](auto&... x) -> int& { m.note(x..., 0); return slot; }; const auto cf = f;
  switch (vsa_choose(8)) {
    case 0: { tok r = boost::apply_visitor(f, a, b, c, d); fin(m, 4); arg(m, 0, s, CAT_L, 1); arg(m, 1, t, CAT_L, 1); arg(m, 2, u, CAT_L, 1); arg(m, 3, w, CAT_L, 1); RETS(r, e); break; }
    case 1: { tok r = boost::apply_visitor(cf, a, cb, c, cd); fin(m, 4); arg(m, 0, s, CAT_L, 1); arg(m, 1, t, CAT_CL, 1); arg(m, 2, u, CAT_L, 1); arg(m, 3, w, CAT_CL, 1); RETS(r, e); break; }
    case 2: { int& r = boost::apply_visitor(g, a, cb, c, d); fin(m, 4); arg(m, 0, s, CAT_L, 1); arg(m, 1, t, CAT_CL, 1); arg(m, 2, u, CAT_L, 1); arg(m, 3, w, CAT_L, 1); CHECKM(&r == &slot, "a reference result is returned as that reference"); break; }
    case 3: { VisBare v; tok r = boost::apply_visitor(v, a, b, c, d); fin(v, 4); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_L, 1); arg(v, 2, u, CAT_L, 1); arg(v, 3, w, CAT_L, 1); RETS(r, e); CHECKM(!v.was_const, "the visitor is called with its own constness"); break; }
    case 4: { const VisBare v; tok r = boost::apply_visitor(v, a, b, c, d); fin(v, 4); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_L, 1); arg(v, 2, u, CAT_L, 1); arg(v, 3, w, CAT_L, 1); RETS(r, e); CHECKM(v.was_const, "the visitor is called with its own constness"); break; }
    case 5: { tok r = boost::apply_visitor(f, std::move(a), b, std::move(c), std::move(d)); fin(m, 4); arg(m, 0, s, CAT_R, 0); arg(m, 1, t, CAT_L, 1); arg(m, 2, u, CAT_R, 0); arg(m, 3, w, CAT_R, 0); RETS(r, e); break; }
    case 6: { tok r = boost::apply_visitor(f)(a, b, c, d); fin(m, 4); arg(m, 0, s, CAT_L, 1); arg(m, 1, t, CAT_L, 1); arg(m, 2, u, CAT_L, 1); arg(m, 3, w, CAT_L, 1); RETS(r, e); break; }
    case 7: { VisBare v; tok r = boost::apply_visitor(v)(a, cb, c, d); fin(v, 4); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_CL, 1); arg(v, 2, u, CAT_L, 1); arg(v, 3, w, CAT_L, 1); RETS(r, e); break; }
  }
  vsa_cover("done"); }
extern "C" void drv_lambda5() {
  V0_(K4, a); K4::any_type(a); V0_(K2, b); K2::any_type(b); V0_(K2, c); K2::any_type(c); V0_(K4, d); K4::any_type(d); V0_(K2, f); K2::any_type(f); St s = K4::obs(a), t = K2::obs(b), u = K2::obs(c), w = K4::obs(d), x = K2::obs(f);
  tok e = vsa_term2(OP_CALL, vsa_term2(OP_CALL, vsa_term2(OP_CALL, ret2(s, t), u.val), w.val), x.val);
  VisBare v; tok r = vsa_choose(2) ? boost::apply_visitor(v, a, b, c, d, f) : boost::apply_visitor(v)(a, b, c, d, f); fin(v, 5); arg(v, 0, s, CAT_L, 1); arg(v, 1, t, CAT_L, 1); arg(v, 2, u, CAT_L, 1); arg(v, 3, w, CAT_L, 1); arg(v, 4, x, CAT_L, 1); RETS(r, e); vsa_cover("done"); }
extern "C" void drv_lambda2() { lambda2<K1, K2>(); } extern "C" void drv_lambda2s() { lambda2<K2, K2>(); } extern "C" void drv_lambda3() { lambda3<K1, K2, K3>(); }
#endif
