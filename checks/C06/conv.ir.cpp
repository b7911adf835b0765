//@std 17
//@std+ 11 14 20 2b
//@ignore LEAK-OBJECT LEAK-HEAP
//@cover all:done any:threw
#define VSA_MAIN
#include "kit.h"
using boost::variant; using boost::get; using boost::recursive_wrapper;
// Tracked sources and targets: Q<J> is constructible from P<J>; a conversion is recorded as a term over the source's value.
template <int J> struct P { VSA_BODY(P, 3000 + J, 8, 8) VSA_COPY_N(P, 3000 + J) VSA_MOVE_N(P, 3000 + J) VSA_CASG_N(P, 3000 + J) VSA_MASG_N(P, 3000 + J) };
template <int J> struct Q { VSA_BODY(Q, 3100 + J, 16, 8) VSA_COPY_T(Q, 3100 + J) VSA_MOVE_T(Q, 3100 + J) VSA_CASG_T(Q, 3100 + J) VSA_MASG_T(Q, 3100 + J)
  Q(const P<J>& p) { vsa_throw_point("converting constructor throws"); vsa_ctor(this, 3100 + J, sizeof(Q), alignof(Q), vsa_term1(OP_CONV, p.t())); }
  Q(P<J>&& p) { vsa_throw_point("converting constructor throws"); tok x = p.t(); vsa_settok(&p, 3000 + J, TOK_MOVED); vsa_ctor(this, 3100 + J, sizeof(Q), alignof(Q), vsa_term1(OP_CONV, x)); } };
typedef Kit<X<0>, Q<1>, M<2>, Q<4> > KQ;        // heap backup
typedef Kit<D<0>, Q<1>, Q<4>, int> KR;          // fallback
typedef Kit<Q<1>, N<2>, Q<4>, boost::blank> KS;
template <class K> void expect(const typename K::V& v, int id, tok t, const char* m) { K::valid(v); St s = K::obs(v); vsa_check(s.id == id && vsa_same(s.val, t), m); }
static void on() { vsa_throw_mode = 1; vsa_alloc_mode(1); } static void off() { vsa_throw_mode = 0; vsa_alloc_mode(0); }
template <class K, int J> void value_to() {
  typedef typename K::V V; tok t = vsa_fresh(); tok ct = vsa_term1(OP_CONV, t); P<J> p(typename P<J>::mk(), t); const int id = Q<J>::id; int how = vsa_choose(6);
  V0(K, v); if (how >= 3) K::any_state(v);
  try {
    switch (how) {
      case 0: { vsa_freeze(&p, sizeof p); on(); V w((const P<J>&)p); off(); vsa_unfreeze(&p, sizeof p); expect<K>(w, id, ct, "construction converts the argument"); break; }
      case 1: { vsa_freeze(&p, sizeof p); on(); V w(p); off(); vsa_unfreeze(&p, sizeof p); expect<K>(w, id, ct, "construction converts the argument"); break; }
      case 2: { on(); V w(std::move(p)); off(); expect<K>(w, id, ct, "construction converts the argument"); break; }
      case 3: { const P<J>& c = p; vsa_freeze(&p, sizeof p); on(); v = c; off(); vsa_unfreeze(&p, sizeof p); expect<K>(v, id, ct, "assignment converts the argument"); break; }
      case 4: { vsa_freeze(&p, sizeof p); on(); v = p; off(); vsa_unfreeze(&p, sizeof p); expect<K>(v, id, ct, "assignment converts the argument"); break; }
      case 5: { on(); v = std::move(p); off(); expect<K>(v, id, ct, "assignment converts the argument"); break; }
    }
    vsa_cover("done");
  } catch (Boom&) { off(); if (how != 2 && how != 5) vsa_unfreeze(&p, sizeof p); vsa_cover("threw"); } catch (std::bad_alloc&) { off(); if (how != 2 && how != 5) vsa_unfreeze(&p, sizeof p); }
  K::valid(v); if (how != 2 && how != 5) CHECK_SAME(p.t(), t, "an lvalue argument is not modified");
}
extern "C" void drv_value_Q() { if (vsa_choose(2)) value_to<KQ, 1>(); else value_to<KQ, 4>(); }
extern "C" void drv_value_R() { if (vsa_choose(2)) value_to<KR, 1>(); else value_to<KR, 4>(); }
extern "C" void drv_value_S() { if (vsa_choose(2)) value_to<KS, 1>(); else value_to<KS, 4>(); }
// foreign variants: content identical to a bounded type, or converted; wrapped in either
typedef Kit<P<1>, X<0>, P<4>, M<2> > FQ;                                   // -> KQ
typedef Kit<P<4>, int, Q<1> > FR;                                          // -> KR
typedef Kit<N<2>, P<1>, Q<4> > FS;                                          // -> KS
typedef Kit<recursive_wrapper<M<2> >, X<0>, recursive_wrapper<X<1> > > FT; typedef Kit<X<0>, recursive_wrapper<X<1> >, N<3>, recursive_wrapper<M<2> > > KT;
typedef Kit<recursive_wrapper<X<0> >, M<2>, recursive_wrapper<X<1> > > KU; // <- FV
typedef Kit<X<0>, M<2> > FV;
struct Exp : boost::static_visitor<void> { int* id; tok* t; 
  template <int J> void operator()(const P<J>& p) const { *id = Q<J>::id; *t = vsa_term1(OP_CONV, p.t()); }
  template <class T> void operator()(const T& x) const { *id = VT<T>::id; *t = VT<T>::val(x); } };
template <class K, class F> void foreign() {
  typedef typename K::V V; typedef typename F::V S; V0(F, s); F::any_state(s); int id = -1; tok t = 0; Exp e; e.id = &id; e.t = &t; boost::apply_visitor(e, s); St s0 = F::obs(s); int how = vsa_choose(6);
  V0(K, v); if (how >= 3) K::any_state(v); bool lv = how != 2 && how != 5;
  if (lv) vsa_freeze(&s, sizeof s);
  try { on();
    switch (how) {
      case 0: { const S& c = s; V w(c); off(); expect<K>(w, id, t, "construction from another variant converts its content"); break; }
      case 1: { V w(s); off(); expect<K>(w, id, t, "construction from another variant converts its content"); break; }
      case 2: { V w(std::move(s)); off(); expect<K>(w, id, t, "construction from another variant converts its content"); break; }
      case 3: { const S& c = s; V& r = (v = c); off(); CHECKM(&r == &v, "assignment returns its left operand"); expect<K>(v, id, t, "assignment from another variant converts its content"); break; }
      case 4: { v = s; off(); expect<K>(v, id, t, "assignment from another variant converts its content"); break; }
      case 5: { v = std::move(s); off(); expect<K>(v, id, t, "assignment from another variant converts its content"); break; }
    }
    vsa_cover("done");
  } catch (Boom&) { off(); vsa_cover("threw"); } catch (std::bad_alloc&) { off(); }
  if (lv) { vsa_unfreeze(&s, sizeof s); F::same_content(F::obs(s), s0, "the source variant is not modified"); }
  F::valid(s); CHECKM(s.which() == s0.w, "the source variant keeps its type"); K::valid(v);
}
extern "C" void drv_foreign_Q() { foreign<KQ, FQ>(); }
extern "C" void drv_foreign_R() { foreign<KR, FR>(); }
extern "C" void drv_foreign_S() { foreign<KS, FS>(); }
extern "C" void drv_foreign_T() { foreign<KT, FT>(); }
extern "C" void drv_foreign_U() { foreign<KU, FV>(); }
// a variant that is itself a bounded type is stored as such, even where its content could be converted
typedef variant<int, X<0> > In; 
template <> struct VT<In> { enum { id = 4000, tracked = 0 }; static tok val(const In& v) { return content(v); } };
template <class V> void nested(int idx) {
  X<0> x(X<0>::mk(), vsa_fresh()); In in(1); if (vsa_choose(2)) in = x; int w0 = in.which(); tok c0 = content(in); int how = vsa_choose(6); V v(x);
  if (how >= 3 && vsa_choose(2)) v = in;
  if (how == 0) { const In& c = in; V w(c); CHECKM(w.which() == idx && get<In>(w).which() == w0, "the variant itself is stored"); CHECK_SAME(content(get<In>(w)), c0, "with its content"); }
  if (how == 1) { V w(in); CHECKM(w.which() == idx && get<In>(w).which() == w0, "the variant itself is stored"); CHECK_SAME(content(get<In>(w)), c0, "with its content"); }
  if (how == 2) { V w(std::move(in)); CHECKM(w.which() == idx && get<In>(w).which() == w0, "the variant itself is stored"); CHECK_SAME(content(get<In>(w)), c0, "with its content"); }
  if (how == 3) { const In& c = in; v = c; } if (how == 4) v = in; if (how == 5) v = std::move(in);
  if (how >= 3) { CHECKM(v.which() == idx && get<In>(v).which() == w0, "the variant itself is stored"); CHECK_SAME(content(get<In>(v)), c0, "with its content"); }
  vsa_cover("done"); }
extern "C" void drv_nested_last() { nested<variant<X<0>, int, In> >(2); }
extern "C" void drv_nested_first() { nested<variant<In, X<0>, int> >(0); }
extern "C" void drv_nested_only() { nested<variant<X<0>, N<1>, In> >(2); }
// a value of exactly a bounded type stores that type, though others would accept it
struct Any { tok t; Any(const X<0>& x) : t(x.t()) {} Any(const N<1>& x) : t(x.t()) {} Any(int) : t(0) {} };
extern "C" void drv_exact() { typedef variant<Any, X<0>, long, N<1>, int> V; X<0> x(X<0>::mk(), vsa_fresh()); N<1> n(N<1>::mk(), vsa_fresh()); int how = vsa_choose(4);
  V v(x); CHECKM(v.which() == 1, "an exact match wins"); V w(n); CHECKM(w.which() == 3, "an exact match wins"); V u(5); CHECKM(u.which() == 4 && get<int>(u) == 5, "an exact match wins");
  V* p = how == 0 ? &v : how == 1 ? &w : &u; *p = x; CHECKM(p->which() == 1, "an exact match wins"); *p = N<1>(n); CHECKM(p->which() == 3, "an exact match wins"); *p = 7; CHECKM(p->which() == 4 && get<int>(*p) == 7, "an exact match wins"); *p = 7L; CHECKM(p->which() == 2 && get<long>(*p) == 7, "an exact match wins"); Any a(3); *p = a; CHECKM(p->which() == 0, "an exact match wins"); vsa_cover("done"); }
// the same bounded type twice: the first position is taken by any value already held
extern "C" void drv_self_content() { V0_(KQ, v); KQ::any_state(v); St s = KQ::obs(v); if (X<0>* p = get<X<0> >(&v)) v = *p; else if (M<2>* p = get<M<2> >(&v)) v = *p; else if (Q<1>* p = get<Q<1> >(&v)) v = *p; KQ::valid(v); KQ::same_content(KQ::obs(v), s, "assigning a variant its own content changes nothing"); vsa_cover("done"); }
// a bounded type that accepts anything (like boost::any) swallows neither the variant itself nor an exact match
struct Grd { int how; tok t; Grd() : how(0), t(0) {} Grd(const Grd& r) : how(r.how), t(r.t) {} Grd(Grd&& r) noexcept : how(r.how), t(r.t) {} Grd& operator=(const Grd& r) { how = r.how; t = r.t; return *this; }
  template <class T> Grd(const T&) : how(1), t(0) {} };
struct Grf { int how; tok t; Grf() : how(0), t(0) {} Grf(const Grf& r) : how(r.how), t(r.t) {} Grf& operator=(const Grf& r) { how = r.how; t = r.t; return *this; }
  template <class T, class = typename std::enable_if<!std::is_same<typename std::decay<T>::type, Grf>::value>::type> Grf(T&&) : how(1), t(0) {} };
template <class G> void greedy() { typedef variant<G, X<0>, N<1> > V; G g; g.t = vsa_fresh(); X<0> x(X<0>::mk(), vsa_fresh()); N<1> n(N<1>::mk(), vsa_fresh()); int k = vsa_choose(3);
  V v(g); if (k == 1) v = x; if (k == 2) v = n; const V& c = v; tok t = k == 0 ? g.t : k == 1 ? x.t() : n.t();
#define GREEDY(w) { CHECKM((w).which() == k, "the same bounded type, not a conversion of the variant"); if (k == 0) { CHECKM(get<G>(w).how == 0, "the content itself, not a conversion of the variant"); CHECK_SAME(get<G>(w).t, t, "with its value"); } if (k == 1) CHECK_SAME(get<X<0> >(w).t(), t, "with its value"); if (k == 2) CHECK_SAME(get<N<1> >(w).t(), t, "with its value"); }
  switch (vsa_choose(9)) {
    case 0: { V w(v); GREEDY(w); break; } case 1: { V w(c); GREEDY(w); break; } case 2: { V w(std::move(v)); GREEDY(w); break; } case 3: { V w = v; GREEDY(w); break; }
    case 4: { V w(n); w = v; GREEDY(w); break; } case 5: { V w(n); w = c; GREEDY(w); break; } case 6: { V w(n); w = std::move(v); GREEDY(w); break; } case 7: { V w(n); w.swap(v); GREEDY(w); CHECKM(v.which() == 2, "the other value"); break; } case 8: { V w((V(c))); GREEDY(w); break; } }
  { V w(2.5); CHECKM(w.which() == 0 && get<G>(w).how == 1, "anything else is converted"); w = x; CHECKM(w.which() == 1, "an exact match wins"); const int i = 3; w = i; CHECKM(w.which() == 0 && get<G>(w).how == 1, "anything else is converted"); }
  vsa_cover("done"); }
extern "C" void drv_greedy() { greedy<Grd>(); } extern "C" void drv_greedy_fwd() { greedy<Grf>(); }
