//@std 17 11
//@std+ 14 20 2b
//@ignore LEAK-OBJECT LEAK-HEAP
//@cover all:done
#define VSA_MAIN
#include "kit.h"
using boost::variant; using boost::get; using boost::recursive_wrapper;
// oracle: ordinary overload resolution over f(const T0&), f(T0&&), f(const T1&), ...
template <int I> struct pick { enum { value = I }; char d[1]; };
template <int I, class... Ts> struct ovl { static void f(); };
template <int I, class T, class... R> struct ovl<I, T, R...> : ovl<I + 1, R...> { using ovl<I + 1, R...>::f; static pick<I> f(const typename unw<T>::type&); static pick<I> f(typename unw<T>::type&&); };
template <class S, class... Ts> struct chosen { typedef decltype(ovl<0, Ts...>::f(std::declval<S>())) P; enum { value = P::value }; };

struct Cs { tok v; Cs(const char* p) noexcept : v((tok)p) {} };                    // string-like: implicit from const char*
struct Fi { tok v; Fi(int i) noexcept : v((tok)(long)i) {} };                      // implicit from int
struct ToInt { tok v; operator int() const noexcept { return (int)v; } };          // converts to int
struct Ex { tok v; explicit Ex(const char* p) noexcept : v((tok)p) {} };          // explicit: never chosen
struct Bs { int b; Bs() noexcept : b(1) {} }; struct De : Bs { int d; De() noexcept : d(2) {} };
enum E1 { ea, eb };
// the value a conversion to T yields, compared with T(s)
template <class T> struct eqv { template <class A> static bool go(const A& a, const T& b) { return a == b; } };
template <class F, class U> bool bits(F a, F b) { U x, y; __builtin_memcpy(&x, &a, sizeof a); __builtin_memcpy(&y, &b, sizeof b); return vsa_same((tok)x, (tok)y); }
template <> struct eqv<double> { static bool go(double a, double b) { return bits<double, unsigned long>(a, b); } }; template <> struct eqv<float> { static bool go(float a, float b) { return bits<float, unsigned>(a, b); } };
template <> struct eqv<Cs> { static bool go(const Cs& a, const Cs& b) { return vsa_same(a.v, b.v); } }; template <> struct eqv<Fi> { static bool go(const Fi& a, const Fi& b) { return vsa_same(a.v, b.v); } };
template <> struct eqv<Bs> { static bool go(const Bs& a, const Bs& b) { return a.b == b.b; } }; template <> struct eqv<De> { static bool go(const De& a, const De& b) { return a.b == b.b && a.d == b.d; } };
template <> struct eqv<ToInt> { static bool go(const ToInt& a, const ToInt& b) { return vsa_same(a.v, b.v); } };
template <> struct eqv<Ex> { static bool go(const Ex& a, const Ex& b) { return vsa_same(a.v, b.v); } };
template <class V, int K, class T, class S> void holds(const V& v, const S& s) {
  CHECKM(v.which() == K, "the bounded type that overload resolution selects is stored");
  const T* p = get<T>(&v); CHECKM(p != 0, "the content has the selected type"); if (p) { T exp = s; CHECKM(eqv<T>::go(*p, exp), "the stored value is the conversion of the argument"); } }
template <class S, class... Ts> struct row {
  typedef variant<Ts...> V; enum { CL = chosen<const S&, Ts...>::value, NL = chosen<S&, Ts...>::value, RV = chosen<S&&, Ts...>::value };
  typedef typename nth<CL, Ts...>::type TC; typedef typename nth<NL, Ts...>::type TN; typedef typename nth<RV, Ts...>::type TR;
  static void go(const S& s0, const V* prior) {
    { const S s = s0; vsa_freeze(&s, sizeof s); V v(s); holds<V, CL, TC>(v, s); vsa_unfreeze(&s, sizeof s); }
    { S s = s0; vsa_freeze(&s, sizeof s); V v(s); holds<V, NL, TN>(v, s); vsa_unfreeze(&s, sizeof s); }
    { S s = s0; V v(std::move(s)); holds<V, RV, TR>(v, s0); }
    { V v = s0; holds<V, CL, TC>(v, s0); }
    if (prior) {
      { V v(*prior); const S s = s0; vsa_freeze(&s, sizeof s); V& r = (v = s); vsa_unfreeze(&s, sizeof s); CHECKM(&r == &v, "assignment returns its left operand"); holds<V, CL, TC>(v, s); }
      { V v(*prior); S s = s0; vsa_freeze(&s, sizeof s); v = s; vsa_unfreeze(&s, sizeof s); holds<V, NL, TN>(v, s); }
      { V v(*prior); S s = s0; V& r = (v = std::move(s)); CHECKM(&r == &v, "assignment returns its left operand"); holds<V, RV, TR>(v, s0); }
    } } };
template <class S, class... Ts> void rows(const S& s, const variant<Ts...>& a, const variant<Ts...>& b) { const variant<Ts...>* p = vsa_choose(2) ? &a : &b; row<S, Ts...>::go(s, p); vsa_cover("done"); }
#define TBL(NAME, INIT_A, INIT_B, ...) \
  template <class S> void NAME(const S& s) { typedef variant<__VA_ARGS__> V; V a((INIT_A)), b((INIT_B)); CHECKM(a.which() != b.which(), "priors differ"); rows<S, __VA_ARGS__>(s, a, b); }
static const char lit[] = "lit";
TBL(int_double_cs, 1, Cs(lit), int, double, Cs)
TBL(cs_int, 1, Cs(lit), Cs, int)
TBL(bool_cs, true, Cs(lit), bool, Cs)
TBL(double_only, 1.5, Cs(lit), double, Cs)
TBL(char_int_long, 'c', 3L, char, int, long)
TBL(uns_bs, 3u, Bs(), unsigned, Bs)
TBL(base_derived, Bs(), De(), Bs, De)
TBL(fi_cs, Fi(3), Cs(lit), Fi, Cs)
TBL(ex_bool, Ex(lit), true, Ex, bool)
TBL(rw_cs, 1, Cs(lit), int, recursive_wrapper<Cs>)
TBL(rw_fi, Cs(lit), Fi(3), recursive_wrapper<Fi>, Cs)
TBL(float_int, 1, 1.5f, float, int)
extern "C" void drv_int() { int i = vsa_int(); int_double_cs(i); cs_int(i); char_int_long(i); fi_cs(i); float_int(i); rw_cs(i); bool_cs(i); uns_bs(i); }
extern "C" void drv_char() { char c = (char)vsa_int(); int_double_cs(c); cs_int(c); char_int_long(c); fi_cs(c); }
extern "C" void drv_short() { short c = (short)vsa_int(); int_double_cs(c); cs_int(c); char_int_long(c); float_int(c); }
extern "C" void drv_bool() { bool c = vsa_int() != 0; int_double_cs(c); cs_int(c); char_int_long(c); bool_cs(c); }
extern "C" void drv_long() { long c = (long)vsa_fresh(); char_int_long(c); cs_int(c); }
extern "C" void drv_float() { float f = 2.5f; int_double_cs(f); float_int(f); cs_int(f); double_only(f); }
extern "C" void drv_double() { double f = 2.5; int_double_cs(f); cs_int(f); fi_cs(f); }
extern "C" void drv_enum() { E1 e = eb; int_double_cs(e); cs_int(e); fi_cs(e); float_int(e); }
extern "C" void drv_cstr() { const char* p = lit; int_double_cs(p); cs_int(p); bool_cs(p); double_only(p); fi_cs(p); ex_bool(p); rw_fi(p); }
extern "C" void drv_class() { ToInt t; t.v = (tok)vsa_int(); int_double_cs(t); cs_int(t); rw_cs(t); De d; uns_bs(d); base_derived(d); Bs b; base_derived(b); uns_bs(b); Cs c(lit); int_double_cs(c); rw_cs(c); bool_cs(c); Fi f(3); fi_cs(f); rw_fi(f); }
extern "C" void drv_array() { typedef variant<int, Cs> V; V v("abc"); CHECKM(v.which() == 1, "a string literal selects the string-like type"); v = 3; v = "de"; CHECKM(v.which() == 1, "a string literal selects the string-like type"); typedef variant<bool, Cs> B; B b("x"); CHECKM(b.which() == 0, "a pointer prefers the built-in conversion to bool"); vsa_cover("done"); }
