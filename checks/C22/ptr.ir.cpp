//@std 17 11
//@std+ 14 20 2b
//@config l1: -DLS=1
//@config l2: -DLS=2
//@config l3: -DLS=3
//@config l7: -DLS=7
//@config l8: -DLS=8
//@config l5: -DLS=5
//@ignore LEAK-OBJECT LEAK-HEAP
//@cover all:called all:refused
#define VSA_MAIN
#include "kit.h"
#include <boost/variant/visitor_ptr.hpp>
struct CL { int n, id, is_const; tok val; const void* addr; }; extern "C" { CL vsa_cl = { 0, 0, 0, 0, 0 }; }
template <class T> tok note(const T& x, int k) { vsa_cl.n = vsa_cl.n + 1; vsa_cl.id = VT<T>::id; vsa_cl.is_const = k; vsa_cl.val = VT<T>::val(x); vsa_cl.addr = std::addressof(x); return vsa_term1(OP_CALL, vsa_cl.val); }
template <class T> tok byval(T x) { return note<T>(x, 0); } template <class T> tok byref(T& x) { return note<T>(x, 0); } template <class T> tok bycref(const T& x) { return note<T>(x, 1); }
template <class T> T& retref(T& x) { note<T>(x, 0); return x; } template <class T> void retvoid(const T& x) { note<T>(x, 1); } template <class T> tok throws(const T& x) { note<T>(x, 1); throw Boom(vsa_last_thrown = vsa_fresh()); }
static void clear() { vsa_cl.n = 0; vsa_cl.id = -1; vsa_cl.addr = 0; vsa_cl.val = 0; }
static void called(const St& s, bool same_object) { CHECKM(vsa_cl.n == 1, "the function is called exactly once"); CHECKM(vsa_cl.id == s.id, "with the content"); if (same_object) CHECKM(vsa_cl.addr == s.addr, "with the stored object itself"); CHECK_SAME(vsa_cl.val, s.val, "with its value"); vsa_cover("called"); }
static void refused() { CHECKM(vsa_cl.n == 0, "the function is not called for another type"); vsa_cover("refused"); }
template <class K> struct Go { typename K::V& v; int i; template <class T> void operator()(tag<T>) const { typedef typename K::V V; const V& c = v; St s = K::obs(v); bool m = s.id == (int)VT<T>::id; bool threw = false; clear(); tok r = 0;
  switch (vsa_choose(10)) {
    case 0: try { r = boost::apply_visitor(boost::visitor_ptr(&byref<T>), v); } catch (boost::bad_visit&) { threw = true; } CHECKM(threw == !m, "bad_visit is thrown exactly for another type"); if (m) { called(s, true); CHECK_SAME(r, vsa_term1(OP_CALL, s.val), "the function's result is returned"); } else refused(); break;
    case 1: try { r = boost::apply_visitor(boost::visitor_ptr(&bycref<T>), v); } catch (boost::bad_visit&) { threw = true; } CHECKM(threw == !m, "bad_visit is thrown exactly for another type"); if (m) { called(s, true); CHECK_SAME(r, vsa_term1(OP_CALL, s.val), "the function's result is returned"); } else refused(); break;
    case 2: try { r = boost::apply_visitor(boost::visitor_ptr(&bycref<T>), c); } catch (boost::bad_visit&) { threw = true; } CHECKM(threw == !m, "bad_visit is thrown exactly for another type"); if (m) { called(s, true); CHECK_SAME(r, vsa_term1(OP_CALL, s.val), "the function's result is returned"); } else refused(); break;
    case 3: try { r = boost::apply_visitor(boost::visitor_ptr(&byval<T>), v); } catch (boost::bad_visit&) { threw = true; } CHECKM(threw == !m, "bad_visit is thrown exactly for another type"); if (m) { called(s, false); CHECK_SAME(r, vsa_term1(OP_CALL, s.val), "the function's result is returned"); } else refused(); break;
    case 4: try { r = boost::apply_visitor(boost::visitor_ptr(&byval<T>), c); } catch (std::exception&) { threw = true; } CHECKM(threw == !m, "bad_visit (a std::exception) is thrown exactly for another type"); if (m) { called(s, false); CHECK_SAME(r, vsa_term1(OP_CALL, s.val), "the function's result is returned"); } else refused(); break;
    case 5: { const void* p = 0; try { T& q = boost::apply_visitor(boost::visitor_ptr(&retref<T>), v); p = std::addressof(q); } catch (boost::bad_visit&) { threw = true; } CHECKM(threw == !m, "bad_visit is thrown exactly for another type"); if (m) { called(s, true); CHECKM(p == s.addr, "a returned reference is passed through"); } else refused(); break; }
    case 6: try { boost::apply_visitor(boost::visitor_ptr(&retvoid<T>), v); } catch (boost::bad_visit&) { threw = true; } CHECKM(threw == !m, "bad_visit is thrown exactly for another type"); if (m) called(s, true); else refused(); break;
    case 7: { bool boom = false; try { r = boost::apply_visitor(boost::visitor_ptr(&throws<T>), v); } catch (boost::bad_visit&) { threw = true; } catch (Boom& e) { boom = true; CHECK_SAME(e.id, vsa_last_thrown, "the function's own exception propagates"); } CHECKM(threw == !m && boom == m, "the function's own exception propagates, bad_visit otherwise"); if (m) called(s, true); else refused(); break; }
    case 8: { boost::visitor_ptr_t<T&, tok> p(&byref<T>); try { r = boost::apply_visitor(p, v); } catch (boost::bad_visit&) { threw = true; } CHECKM(threw == !m, "bad_visit is thrown exactly for another type"); if (m) called(s, true); else refused(); break; }
    case 9: try { r = boost::apply_visitor(boost::visitor_ptr(&byref<T>), c); CHECKM(false, "a function taking a mutable reference is not called on a const variant"); } catch (boost::bad_visit&) { refused(); } break;
  }
  K::valid(v); K::same_content(K::obs(v), s, "the variant is unchanged"); } };
template <class K> void ptr() { V0(K, a); K::any_state(a); int i = vsa_choose(K::n); Go<K> g = { a, i }; K::with(i, g); }
FOR_LISTS(ptr, ptr)
#if LS == 0
// related but different types are refused: derived, convertible, differently qualified
struct B { int b; B() noexcept : b(0) {} }; struct D1 : B { int d; D1() noexcept : d(0) {} }; struct Cv { operator int() const { return 1; } };
static int fb(const B&) { vsa_cl.n = vsa_cl.n + 1; return 1; } static int fbv(B) { vsa_cl.n = vsa_cl.n + 1; return 1; } static int fbr(B&) { vsa_cl.n = vsa_cl.n + 1; return 1; } static int fl(long) { vsa_cl.n = vsa_cl.n + 1; return 1; } static int fi(int) { vsa_cl.n = vsa_cl.n + 1; return 1; }
typedef boost::variant<D1, int, Cv, B, char> V;
template <class F> void try_(F f, V& v, bool m) { clear(); bool threw = false; int r = 0; try { r = boost::apply_visitor(boost::visitor_ptr(f), v); } catch (boost::bad_visit&) { threw = true; } CHECKM(threw == !m && vsa_cl.n == (m ? 1 : 0) && r == (m ? 1 : 0), "only the exact parameter type is accepted"); if (m) vsa_cover("called"); else vsa_cover("refused"); }
extern "C" void drv_related() { V v; int k = vsa_choose(5); if (k == 1) v = 3; if (k == 2) v = Cv(); if (k == 3) v = B(); if (k == 4) v = 'c'; CHECKM(v.which() == k, "as given"); try_(&fb, v, k == 3); try_(&fbv, v, k == 3); try_(&fbr, v, k == 3); try_(&fl, v, false); try_(&fi, v, k == 1); }
#endif
