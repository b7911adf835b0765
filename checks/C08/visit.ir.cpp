//@std 17 11 14
//@std+ 20 2b
//@config l1: -DLS=1
//@config l2: -DLS=2
//@config l3: -DLS=3
//@config l7: -DLS=7
//@config l10: -DLS=10
//@config l8: -DLS=8
//@config l6: -DLS=6
//@config l5: -DLS=5
//@ignore LEAK-OBJECT LEAK-HEAP
//@cover all:done
#define VSA_MAIN
#include "visitors.h"
#define RET(r, s) CHECK_SAME(r, vsa_term1(OP_CALL, s.val), "apply_visitor returns what the visitor returned")
template <class K> void forms() {
  typedef typename K::V V; V0(K, v); K::any_state(v); K::valid(v); St s = K::obs(v); const V& cv = v;
  switch (vsa_choose(19)) {
    case 0: { Rec r; tok t = boost::apply_visitor(r, v); called<K>(r, s, CAT_L); RET(t, s); break; }
    case 1: { Rec r; tok t = boost::apply_visitor(r, cv); called<K>(r, s, CAT_CL); RET(t, s); break; }
    case 2: { Rec r; tok t = boost::apply_visitor(r, std::move(v)); called<K>(r, s, CAT_R); RET(t, s); break; }
    case 3: { Rec2 r; tok t = boost::apply_visitor(r, v); called<K>(r, s, CAT_L); RET(t, s); CHECKM(!r.was_const, "a non-const visitor is called as non-const"); break; }
    case 4: { const Rec2 r; tok t = boost::apply_visitor(r, v); called<K>(r, s, CAT_L); RET(t, s); CHECKM(r.was_const, "a const visitor is called as const"); break; }
    case 5: { const Rec2 r; tok t = boost::apply_visitor(r, cv); called<K>(r, s, CAT_CL); RET(t, s); CHECKM(r.was_const, "a const visitor is called as const"); break; }
    case 6: { const Rec2 r; tok t = boost::apply_visitor(r, std::move(v)); called<K>(r, s, CAT_R); RET(t, s); break; }
    case 7: { Rec r; tok t = v.apply_visitor(r); called<K>(r, s, CAT_L); RET(t, s); break; }
    case 8: { Rec r; tok t = cv.apply_visitor(r); called<K>(r, s, CAT_CL); RET(t, s); break; }
    case 9: { Rec r; tok t = std::move(v).apply_visitor(r); called<K>(r, s, CAT_R); RET(t, s); break; }
    case 10: { RecRef r; int& i = boost::apply_visitor(r, v); called<K>(r, s, CAT_L); CHECKM(&i == &r.slot, "a reference result is returned as that reference"); break; }
    case 11: { RecRef r; int& i = boost::apply_visitor(r, cv); called<K>(r, s, CAT_CL); CHECKM(&i == &r.slot, "a reference result is returned as that reference"); break; }
    case 12: { RecVoid r; boost::apply_visitor(r, v); called<K>(r, s, CAT_L); break; }
    case 13: { RecVoid r; boost::apply_visitor(r, cv); called<K>(r, s, CAT_CL); break; }
    case 14: { RecOwn r; tok t = boost::apply_visitor(r, v); called<K>(r, s, CAT_L); RET(t, s); break; }
    case 15: { Rec r; tok t = boost::apply_visitor(r, std::move(cv)); called<K>(r, s, CAT_CR); RET(t, s); break; }
    case 16: { Rec2 r; tok t = boost::apply_visitor(r, std::move(v)); called<K>(r, s, CAT_R); RET(t, s); CHECKM(!r.was_const, "a non-const visitor is called as non-const"); break; }
    case 17: { RecVoid r; boost::apply_visitor(r, std::move(v)); called<K>(r, s, CAT_R); break; }
    case 18: { Rec r; tok t = std::move(cv).apply_visitor(r); called<K>(r, s, CAT_CR); RET(t, s); break; }
  }
  K::same_content(K::obs(v), s, "visiting without modifying leaves the content alone"); K::valid(v); vsa_cover("done");
}
struct SetTo : boost::static_visitor<> { tok t; template <class T> void operator()(T& x) const { go(x, std::integral_constant<bool, VT<T>::tracked>()); }
  template <class T> void go(T& x, std::true_type) const { vsa_settok(std::addressof(x), VT<T>::id, t); } void go(int& x, std::false_type) const { x = (int)t; } template <class T> void go(T&, std::false_type) const {} };
template <class K> void mutate() { V0(K, v); K::any_state(v); St s = K::obs(v); SetTo m; m.t = vsa_fresh(); boost::apply_visitor(m, v); K::valid(v); St t = K::obs(v);
  CHECKM(t.w == s.w && t.addr == s.addr, "modifying the content in place keeps its type and address"); if (t.tracked) CHECK_SAME(t.val, m.t, "a change made through a visitor changes the variant"); vsa_cover("done"); }
struct Thrower : boost::static_visitor<tok> { tok id; template <class T> tok operator()(T&&) const { throw Boom(id); } };
template <class K> void throws() { typedef typename K::V V; V0(K, v); K::any_state(v); St s = K::obs(v); Thrower t; t.id = vsa_fresh(); const V& cv = v; bool caught = false;
  try { switch (vsa_choose(3)) { case 0: boost::apply_visitor(t, v); break; case 1: boost::apply_visitor(t, cv); break; case 2: boost::apply_visitor(t, std::move(v)); break; } }
  catch (Boom& e) { caught = true; CHECK_SAME(e.id, t.id, "the visitor's exception propagates"); }
  CHECKM(caught, "the visitor's exception propagates"); K::valid(v); K::same_content(K::obs(v), s, "a throwing visitor leaves the content alone"); vsa_cover("done"); }
FOR_LISTS(forms, forms) FOR_LISTS(mutate, mutate) FOR_LISTS(throws, throws)
#if __cplusplus >= 201402L
template <class K> void lambdas() {
  typedef typename K::V V; V0(K, v); K::any_state(v); St s = K::obs(v); const V& cv = v; RecBase r; int slot = 0;
  auto f = [&](auto&& x) -> tok { return r.note<decltype(x)>(x, 0); };
  auto g = [&](auto&& x) -> int& { r.note<decltype(x)>(x, 0); return slot; };
  switch (vsa_choose(15)) {
    case 0: { tok t = boost::apply_visitor(f, v); called<K>(r, s, CAT_L); RET(t, s); break; }
    case 1: { tok t = boost::apply_visitor(f, cv); called<K>(r, s, CAT_CL); RET(t, s); break; }
    case 2: { tok t = boost::apply_visitor([&](auto&& x) -> tok { return r.note<decltype(x)>(x, 0); }, v); called<K>(r, s, CAT_L); RET(t, s); break; }
    case 3: { int& i = boost::apply_visitor(g, v); called<K>(r, s, CAT_L); CHECKM(&i == &slot, "a reference result is returned as that reference"); break; }
    case 4: { int& i = boost::apply_visitor(g, cv); called<K>(r, s, CAT_CL); CHECKM(&i == &slot, "a reference result is returned as that reference"); break; }
    case 5: { tok t = boost::apply_visitor([&](const auto& x) -> tok { return r.note<decltype(x)>(x, 0); }, cv); called<K>(r, s, CAT_CL); RET(t, s); break; }
    case 6: { auto h = [&](auto& x) -> tok { return r.note<decltype(x)>(x, 0); }; tok t = boost::apply_visitor(h, v); called<K>(r, s, CAT_L); RET(t, s); break; }
    case 7: { tok t = boost::apply_visitor([&](auto&& x) -> tok { return r.note<decltype(x)>(x, 0); }, std::move(v)); called<K>(r, s, CAT_R); RET(t, s); break; }
    case 8: { tok t = boost::apply_visitor(f, std::move(v)); called<K>(r, s, CAT_R); RET(t, s); break; }
    case 9: { tok t = boost::apply_visitor(f, std::move(cv)); called<K>(r, s, CAT_CR); RET(t, s); break; }
    case 10: { RecBare b; tok t = boost::apply_visitor(b, v); called<K>(b, s, CAT_L); RET(t, s); CHECKM(!b.was_const, "a non-const visitor is called as non-const"); break; }
    case 11: { const RecBare b; tok t = boost::apply_visitor(b, cv); called<K>(b, s, CAT_CL); RET(t, s); CHECKM(b.was_const, "a const visitor is called as const"); break; }
    case 12: { const RecBare b; tok t = boost::apply_visitor(b, std::move(v)); called<K>(b, s, CAT_R); RET(t, s); CHECKM(b.was_const, "a const visitor is called as const"); break; }
    case 13: { RecBare b; tok t = boost::apply_visitor(b, std::move(v)); called<K>(b, s, CAT_R); RET(t, s); CHECKM(!b.was_const, "a non-const visitor is called as non-const"); break; }
    case 14: { int& i = boost::apply_visitor(g, std::move(v)); called<K>(r, s, CAT_R); CHECKM(&i == &slot, "a reference result is returned as that reference"); break; }
  }
  K::valid(v); K::same_content(K::obs(v), s, "visiting without modifying leaves the content alone"); vsa_cover("done");
}
FOR_LISTS(lambdas, lambdas)
#endif
