//@std 17 11
//@std+ 14 20 2b
//@cover all:done
#define VSA_MAIN
#include "visitors.h"
using boost::variant; using boost::get;
// X<0> by mutable reference, X<1> by const reference, M<2> by value
typedef variant<X<0>&, const X<1>&, M<2>, int&> V;
template <> struct VT<char> { enum { id = 901, tracked = 0 }; }; template <> struct VT<short> { enum { id = 902, tracked = 0 }; };
struct O { X<0> a; X<1> b; M<2> m; int i; O() : a(X<0>::mk(), vsa_fresh()), b(X<1>::mk(), vsa_fresh()), m(M<2>::mk(), vsa_fresh()), i(vsa_int()) {} };
struct Seen : boost::static_visitor<void> { int* id; const void** p; int* c; int* n; 
  template <class T> void operator()(T& x) const { *id = VT<typename std::remove_const<T>::type>::id; *p = &x; *c = std::is_const<T>::value; *n = *n + 1; } };
struct Look { int id; const void* p; int c, n; };
template <class W> Look look(W& v) { Look l = { -1, 0, -1, 0 }; Seen s; s.id = &l.id; s.p = &l.p; s.c = &l.c; s.n = &l.n; boost::apply_visitor(s, v); CHECKM(l.n == 1, "visited once"); return l; }
static void refs(V& v, O& o, int k, const void* mp) {
  Look l = look(v); const V& cv = v; Look q = look(cv); (void)mp;
  CHECKM(v.which() == k, "the index of the reference");
  const void* p = k == 0 ? (const void*)&o.a : k == 1 ? (const void*)&o.b : k == 3 ? (const void*)&o.i : 0;
  if (p) { CHECKM(l.p == p && q.p == p, "visitation yields the referent itself"); CHECKM(!vsa_inside(l.p, &v, sizeof v), "nothing is stored"); CHECKM(l.c == (k == 1), "with the referent's constness"); }
  int ty; const void* ad; CHECKM(vsa_owned(&v, sizeof v, &ty, &ad) == (k == 2 ? 1 : 0), "a reference is not an owned object");
  CHECKM((const void*)get<X<0>&>(&v) == (k == 0 ? p : 0) && (const void*)get<X<0> >(&v) == (k == 0 ? p : 0), "get yields the referent");
  CHECKM((const void*)get<const X<1>&>(&v) == (k == 1 ? p : 0) && (const void*)get<const X<1> >(&v) == (k == 1 ? p : 0), "get yields the referent");
  CHECKM((const void*)get<int&>(&v) == (k == 3 ? p : 0), "get yields the referent"); CHECKM((const void*)get<X<0>&>(&cv) == (k == 0 ? p : 0), "get yields the referent");
  if (k == 0) { X<0>& r = get<X<0>&>(v); CHECKM(&r == &o.a, "reference get yields the referent"); tok t = vsa_fresh(); vsa_settok(&r, X<0>::id, t); CHECK_SAME(o.a.t(), t, "modifications go to the referent"); CHECK_SAME(get<X<0>&>(v).t(), t, "and are seen through the variant"); tok u = vsa_fresh(); vsa_settok(&o.a, X<0>::id, u); CHECK_SAME(get<X<0>&>(v).t(), u, "changes of the referent are seen through the variant"); }
  if (k == 1) { const X<1>& r = get<const X<1>&>(v); CHECKM(&r == &o.b, "reference get yields the referent"); tok u = vsa_fresh(); vsa_settok(&o.b, X<1>::id, u); CHECK_SAME(get<const X<1>&>(v).t(), u, "changes of the referent are seen through the variant"); }
  if (k == 3) { get<int&>(v) = 41; CHECKM(o.i == 41, "modifications go to the referent"); o.i = 17; CHECKM(get<int&>(v) == 17, "changes of the referent are seen through the variant"); }
  bool threw = false; try { (void)get<X<0>&>(v); } catch (boost::bad_get&) { threw = true; } CHECKM(threw == (k != 0), "reference get fails for another type"); }
// bounded-type operations of the referents must never be used: they are frozen against construction and destruction and any
// copy is counted
template <class F> void with(O& o, int k, F f) { switch (k) { case 0: { V v(o.a); f(v, o, k); break; } case 1: { const X<1>& r = o.b; V v(r); f(v, o, k); break; } case 2: { V v(o.m); f(v, o, k); break; } case 3: { V v(o.i); f(v, o, k); break; } } }
struct Basic { void operator()(V& v, O& o, int k) const { refs(v, o, k, 0); vsa_cover("done"); } };
struct CopyC { void operator()(V& v, O& o, int k) const { vsa_freeze(&v, sizeof v); const V& c = v; V w(c); vsa_unfreeze(&v, sizeof v); refs(w, o, k, 0); refs(v, o, k, 0); { V x(w); refs(x, o, k, 0); } refs(w, o, k, 0); vsa_cover("done"); } };
struct MoveC { void operator()(V& v, O& o, int k) const { V w(std::move(v)); refs(w, o, k, 0); if (k != 2) refs(v, o, k, 0); vsa_cover("done"); } };
struct Count { int before; void operator()(V& v, O& o, int k) const { if (k == 2) { vsa_cover("done"); return; } vsa_counting = 1; vsa_cnt[1] = vsa_cnt[2] = 0; vsa_freeze(&o, sizeof o); { const V& c = v; V w(c); V x(std::move(w)); (void)look(x); (void)x.which(); (void)&x.type(); } vsa_unfreeze(&o, sizeof o); vsa_counting = 0; CHECKM(vsa_cnt[1] == 0 && vsa_cnt[2] == 0, "the referent is never copied or moved"); vsa_cover("done"); } };
extern "C" void drv_basic() { O o; with(o, vsa_choose(4), Basic()); }
extern "C" void drv_copy() { O o; with(o, vsa_choose(4), CopyC()); }
extern "C" void drv_move() { O o; with(o, vsa_choose(4), MoveC()); }
extern "C" void drv_count() { O o; Count c = { 0 }; with(o, vsa_choose(4), c); }
// the value category and type of the argument select the reference; a value variant can be made from a reference variant
extern "C" void drv_to_value() { O o; typedef variant<X<0>&, const X<1>&> R; typedef variant<X<0>, X<1> > W; int k = vsa_choose(2); tok t = k ? o.b.t() : o.a.t(); 
  R* pr = 0; const X<1>& cb = o.b; R r0(o.a), r1(cb); pr = k ? &r1 : &r0; vsa_freeze(&o, sizeof o); const R& cr = *pr; W w(cr); vsa_unfreeze(&o, sizeof o); CHECKM(w.which() == k, "the converted content"); CHECK_SAME(content(w), t, "has the referent's value"); Look l = look(w); CHECKM(vsa_inside(l.p, &w, sizeof w), "and is the new variant's own"); vsa_settok(const_cast<void*>(l.p), k ? (int)X<1>::id : (int)X<0>::id, vsa_fresh()); CHECK_SAME(k ? o.b.t() : o.a.t(), t, "the referent is independent of the converted value"); vsa_cover("done"); }
extern "C" void drv_type() { O o; variant<X<0>&, const X<1>&> a(o.a); CHECKM(&a.type() == &typeid(X<0>), "type() names the referent's type"); vsa_cover("done"); }
// comparing, hashing and visiting two reference variants compares the referents
extern "C" void drv_compare() { O o, p; typedef variant<X<0>&, int&> R; R a(o.a), b(p.a), c(o.i), d(o.a); CHECKM((a == d) == (o.a == o.a), "== compares the referents"); bool e = vsa_rel(REL_EQ, o.a.t(), p.a.t()); CHECKM((a == b) == e, "== compares the referents"); CHECKM(!(a == c) && a < c, "different indices"); bool l = vsa_rel(REL_LT, o.a.t(), p.a.t()); CHECKM((a < b) == l, "< compares the referents"); vsa_cover("done"); }
// converting one reference variant into another keeps the referent, whatever the value category of the source
template <class R, class Q> static void conv(R& r, O& o, int k, int wk) {
  const void* p = k == 0 ? (const void*)&o.a : k == 1 ? (const void*)&o.b : (const void*)&o.i; vsa_counting = 1; vsa_cnt[1] = vsa_cnt[2] = 0; const R& cr = r; vsa_freeze(&o, sizeof o);
  switch (vsa_choose(3)) {
    case 0: { Q q(cr); CHECKM(q.which() == wk && look(q).p == p, "a converted reference refers to the same object"); break; }
    case 1: { Q q(r); CHECKM(q.which() == wk && look(q).p == p, "a converted reference refers to the same object"); break; }
    case 2: { Q q(cr), s(q); CHECKM(s.which() == wk && look(s).p == p, "a converted reference refers to the same object"); break; }
  }
  vsa_unfreeze(&o, sizeof o); vsa_counting = 0; CHECKM(vsa_cnt[1] == 0 && vsa_cnt[2] == 0, "the referent is never copied or moved"); CHECKM(look(r).p == p, "the source still refers to its object"); vsa_cover("done"); }
typedef variant<X<0>&, const X<1>&, int&> R3; typedef variant<int&, X<0>&, const X<1>&> Q3;
extern "C" void drv_ref_to_ref() { O o; switch (vsa_choose(3)) { case 0: { R3 r(o.a); conv<R3, Q3>(r, o, 0, 1); break; } case 1: { const X<1>& c = o.b; R3 r(c); conv<R3, Q3>(r, o, 1, 2); break; } case 2: { R3 r(o.i); conv<R3, Q3>(r, o, 3, 0); break; } } }
// a mutable reference converts to a const one: same object, now const
extern "C" void drv_to_const() { O o; typedef variant<X<0>&> R; typedef variant<int, const X<0>&> Q; R r(o.a); const R& cr = r; if (vsa_choose(2)) { Q q(cr); Look l = look(q); CHECKM(q.which() == 1 && l.p == &o.a && l.c == 1, "the same object, as const"); } else { Q q(r); Look l = look(q); CHECKM(q.which() == 1 && l.p == &o.a && l.c == 1, "the same object, as const"); } vsa_cover("done"); }
// several variants at once: each argument is its own referent
struct Two : boost::static_visitor<void> { const void** p; const void** q; template <class A, class B> void operator()(A& a, B& b) const { *p = &a; *q = &b; } };
extern "C" void drv_binary() { O o, u; const void *p = 0, *q = 0; Two t; t.p = &p; t.q = &q; R3 a(o.a), b(u.i); const R3& ca = a; switch (vsa_choose(3)) { case 0: boost::apply_visitor(t, a, b); break; case 1: boost::apply_visitor(t, ca, b); break; case 2: { Two s = t; boost::apply_visitor(s)(a, b); break; } } CHECKM(p == &o.a && q == &u.i, "each argument is the referent itself"); vsa_cover("done"); }
// the member visitation interface and rvalue variants
extern "C" void drv_member_visit() { O o; R3 a(o.a); const R3& ca = a; Look l = { -1, 0, -1, 0 }; Seen s; s.id = &l.id; s.p = &l.p; s.c = &l.c; s.n = &l.n; switch (vsa_choose(2)) { case 0: a.apply_visitor(s); break; case 1: ca.apply_visitor(s); break; } CHECKM(l.n == 1 && l.p == &o.a && l.c == 0, "visitation yields the referent itself"); vsa_cover("done"); }
// referents smaller than a pointer: what is stored is the reference, not a value of that size
extern "C" void drv_tiny() { typedef variant<char&, const short&> T; static_assert(sizeof(T) >= sizeof(void*) + 1, ""); char c[2] = { 1, 2 }; short h[2] = { 3, 4 }; T guard[3] = { T(c[0]), T(c[1]), T(c[0]) }; int k = vsa_choose(2); const short& ch = h[1]; T a(c[1]), b(ch); T& s = k ? b : a; T x(s); 
  const void* p = k ? (const void*)&h[1] : (const void*)&c[1]; CHECKM(look(x).p == p && look(s).p == p, "visitation yields the referent itself"); CHECKM((const void*)get<char&>(&x) == (k ? 0 : p) && (const void*)get<const short&>(&x) == (k ? p : 0), "get yields the referent"); CHECKM(look(guard[0]).p == c && look(guard[1]).p == c + 1 && look(guard[2]).p == c, "neighbouring variants are untouched");
  typedef variant<char&> U; U u(c[1]), w(u); CHECKM(look(w).p == c + 1 && look(u).p == c + 1, "visitation yields the referent itself"); vsa_cover("done"); }
