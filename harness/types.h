// Families of tracked bounded types: every combination of throwing / non-throwing special members that the
// library's dispatch distinguishes.
#ifndef VSA_TYPES_H
#define VSA_TYPES_H
#include "vsa.h"
#include <boost/variant.hpp>
#include <boost/blank.hpp>
template <int I> struct X  { VSA_BODY(X, 10000 + I, 8, 8)  VSA_COPY_T(X, 10000 + I) VSA_MOVE_T(X, 10000 + I) VSA_CASG_T(X, 10000 + I) VSA_MASG_T(X, 10000 + I) };            // everything may throw
template <int I> struct XD { VSA_BODY(XD, 11000 + I, 8, 8) VSA_DEFAULT_T(XD, 11000 + I) VSA_COPY_T(XD, 11000 + I) VSA_MOVE_T(XD, 11000 + I) VSA_CASG_T(XD, 11000 + I) VSA_MASG_T(XD, 11000 + I) };
template <int I> struct N  { VSA_BODY(N, 12000 + I, 4, 4)  VSA_COPY_N(N, 12000 + I) VSA_MOVE_N(N, 12000 + I) VSA_CASG_N(N, 12000 + I) VSA_MASG_N(N, 12000 + I) };            // nothing throws
template <int I> struct M  { VSA_BODY(M, 13000 + I, 24, 8) VSA_COPY_T(M, 13000 + I) VSA_MOVE_N(M, 13000 + I) VSA_CASG_T(M, 13000 + I) VSA_MASG_N(M, 13000 + I) };            // like std::string
template <int I> struct C  { VSA_BODY(C, 14000 + I, 8, 8)  VSA_COPY_N(C, 14000 + I) VSA_MOVE_T(C, 14000 + I) VSA_CASG_N(C, 14000 + I) VSA_MASG_T(C, 14000 + I) };
template <int I> struct D  { VSA_BODY(D, 15000 + I, 8, 4)  VSA_DEFAULT_N(D, 15000 + I) VSA_COPY_T(D, 15000 + I) VSA_MOVE_T(D, 15000 + I) VSA_CASG_T(D, 15000 + I) VSA_MASG_T(D, 15000 + I) };  // fallback type
template <int I> struct MO { VSA_BODY(MO, 16000 + I, 8, 8) VSA_MOVE_N(MO, 16000 + I) VSA_MASG_N(MO, 16000 + I) MO(const MO&) = delete; MO& operator=(const MO&) = delete; };   // move-only
template <int I> struct CO { VSA_BODY(CO, 17000 + I, 8, 8) VSA_COPY_T(CO, 17000 + I) VSA_CASG_T(CO, 17000 + I) };                                                            // copy-only
template <int I> struct W  { VSA_BODY(W, 18000 + I, 200, 8) VSA_COPY_T(W, 18000 + I) VSA_MOVE_T(W, 18000 + I) VSA_CASG_T(W, 18000 + I) VSA_MASG_T(W, 18000 + I) };          // large
template <int I> struct A  { VSA_BODY(A, 19000 + I, 32, 32) VSA_COPY_T(A, 19000 + I) VSA_MOVE_N(A, 19000 + I) VSA_CASG_T(A, 19000 + I) VSA_MASG_N(A, 19000 + I) };          // over-aligned
template <int I> struct S  { VSA_BODY(S, 20000 + I, 1, 1)  VSA_COPY_T(S, 20000 + I) VSA_MOVE_T(S, 20000 + I) VSA_CASG_T(S, 20000 + I) VSA_MASG_T(S, 20000 + I) };           // one byte
template <int I> struct ND { VSA_BODY(ND, 21000 + I, 8, 8) VSA_DEFAULT_N(ND, 21000 + I) VSA_COPY_N(ND, 21000 + I) VSA_MOVE_N(ND, 21000 + I) VSA_CASG_N(ND, 21000 + I) VSA_MASG_N(ND, 21000 + I) };
template <int I> struct NA { VSA_BODY(NA, 24000 + I, 8, 8) VSA_COPY_T(NA, 24000 + I) VSA_MOVE_N(NA, 24000 + I) VSA_CASG_T(NA, 24000 + I) VSA_MASG_T(NA, 24000 + I) };           // nothrow move construction, throwing assignment
template <int I> struct NB { VSA_BODY(NB, 25000 + I, 8, 8) VSA_COPY_T(NB, 25000 + I) VSA_MOVE_T(NB, 25000 + I) VSA_CASG_T(NB, 25000 + I) VSA_MASG_N(NB, 25000 + I) };           // the converse
// hostile but legal: a throwing move has already spoilt its source
template <int I> struct Y { VSA_BODY(Y, 26000 + I, 16, 8) VSA_COPY_T(Y, 26000 + I) VSA_CASG_T(Y, 26000 + I)
  Y(Y&& r) { if (vsa_counting) VSA_CNT_M(Y); tok x = r.t(); vsa_settok(std::addressof(r), 26000 + I, TOK_UNSPEC); vsa_throw_ctor("move constructor of Y throws", this, sizeof(Y)); vsa_settok(std::addressof(r), 26000 + I, TOK_MOVED); vsa_ctor(this, 26000 + I, sizeof(Y), alignof(Y), x); }
  Y& operator=(Y&& r) { if (vsa_counting) VSA_CNT_M(Y); tok x = r.t(); vsa_settok(std::addressof(r), 26000 + I, TOK_UNSPEC); vsa_settok(this, 26000 + I, TOK_UNSPEC); vsa_throw_point("move assignment of Y throws"); vsa_settok(std::addressof(r), 26000 + I, TOK_MOVED); vsa_settok(this, 26000 + I, x); return *this; } };
// overloads unary operator&
template <int I> struct YA { VSA_BODY(YA, 27000 + I, 16, 8) VSA_COPY_T(YA, 27000 + I) VSA_CASG_T(YA, 27000 + I)
  YA(YA&& r) { vsa_throw_ctor("move constructor of YA throws", this, sizeof(YA)); tok x = r.t(); vsa_settok(std::addressof(r), 27000 + I, TOK_MOVED); vsa_ctor(this, 27000 + I, sizeof(YA), alignof(YA), x); }
  YA& operator=(YA&& r) { tok x = r.t(); vsa_throw_point("move assignment of YA throws"); vsa_settok(std::addressof(r), 27000 + I, TOK_MOVED); vsa_settok(this, 27000 + I, x); return *this; }
  YA* operator&() noexcept { return 0; } const YA* operator&() const noexcept { return 0; } };
// kinds of class a special case could be keyed on: polymorphic, final, empty, very large, aligned beyond a cache line
struct VBase { virtual ~VBase() noexcept {} virtual int kind() const noexcept { return 0; } };
template <int I> struct PV : VBase { VSA_BODY(PV, 28000 + I, 8, 8) VSA_COPY_T(PV, 28000 + I) VSA_MOVE_T(PV, 28000 + I) VSA_CASG_T(PV, 28000 + I) VSA_MASG_T(PV, 28000 + I) int kind() const noexcept { return I; } };
template <int I> struct FI final { VSA_BODY(FI, 29000 + I, 8, 8) VSA_COPY_T(FI, 29000 + I) VSA_MOVE_N(FI, 29000 + I) VSA_CASG_T(FI, 29000 + I) VSA_MASG_N(FI, 29000 + I) };
template <int I> struct EM { VSA_BODY_EMPTY(EM, 30000 + I) friend std::size_t hash_value(const EM& a) { return vsa_term1(OP_HASH + 30000 + I, a.t()); } VSA_COPY_T(EM, 30000 + I) VSA_MOVE_T(EM, 30000 + I) VSA_CASG_T(EM, 30000 + I) VSA_MASG_T(EM, 30000 + I) };
template <int I> struct WW { VSA_BODY(WW, 31000 + I, 5000, 8) VSA_COPY_T(WW, 31000 + I) VSA_MOVE_N(WW, 31000 + I) VSA_CASG_T(WW, 31000 + I) VSA_MASG_N(WW, 31000 + I) };
#if __cplusplus >= 201703L
template <int I> struct AL { VSA_BODY(AL, 32000 + I, 128, 128) VSA_COPY_T(AL, 32000 + I) VSA_MOVE_T(AL, 32000 + I) VSA_CASG_T(AL, 32000 + I) VSA_MASG_T(AL, 32000 + I) };
#else   // plain new does not honour the alignment there: kept out of heap backups
template <int I> struct AL { VSA_BODY(AL, 32000 + I, 128, 128) VSA_COPY_T(AL, 32000 + I) VSA_MOVE_N(AL, 32000 + I) VSA_CASG_T(AL, 32000 + I) VSA_MASG_N(AL, 32000 + I) };
#endif
// trivially copyable ones
enum class En : tok {};
struct Pod { tok a, b; friend bool operator==(const Pod& x, const Pod& y) { return x.a == y.a; } friend bool operator<(const Pod& x, const Pod& y) { return x.a < y.a; } friend std::size_t hash_value(const Pod& x) { return vsa_term1(OP_HASH + 5, x.a); } };
struct Pnd { tok a; explicit Pnd(tok x) noexcept : a(x) {} friend bool operator==(const Pnd& x, const Pnd& y) { return x.a == y.a; } friend bool operator<(const Pnd& x, const Pnd& y) { return x.a < y.a; } friend std::size_t hash_value(const Pnd& x) { return vsa_term1(OP_HASH + 8, x.a); } };   // not default constructible
// type with its own ADL swap (nothrow), everything else throwing
template <int I> struct SW { VSA_BODY(SW, 22000 + I, 8, 8) VSA_COPY_T(SW, 22000 + I) VSA_MOVE_T(SW, 22000 + I) VSA_CASG_T(SW, 22000 + I) VSA_MASG_T(SW, 22000 + I)
  friend void swap(SW& a, SW& b) noexcept { tok x = a.t(), y = b.t(); vsa_settok(&a, 22000 + I, y); vsa_settok(&b, 22000 + I, x); } };

// ---- what the drivers know about a bounded type: identity, whether it is tracked, its value number
template <class T> struct VT { enum { id = T::id, tracked = 1 }; static tok val(const T& x) { return x.t(); } static T make(tok t) { return T(typename T::mk(), t); } };
template <> struct VT<int> { enum { id = 1, tracked = 0 }; static tok val(const int& x) { return (tok)x; } static int make(tok t) { return (int)t; } };
template <> struct VT<long> { enum { id = 3, tracked = 0 }; static tok val(const long& x) { return (tok)x; } static long make(tok t) { return (long)t; } };
template <> struct VT<En> { enum { id = 4, tracked = 0 }; static tok val(const En& x) { return (tok)x; } static En make(tok t) { return (En)t; } };
template <> struct VT<Pod> { enum { id = 5, tracked = 0 }; static tok val(const Pod& x) { CHECKM(vsa_same(x.a, x.b), "both members hold the value stored"); return x.a; } static Pod make(tok t) { Pod p = { t, t }; return p; } };
template <> struct VT<Pnd> { enum { id = 8, tracked = 0 }; static tok val(const Pnd& x) { return x.a; } static Pnd make(tok t) { return Pnd(t); } };
template <> struct VT<void*> { enum { id = 6, tracked = 0 }; static tok val(void* const& x) { return (tok)x; } static void* make(tok t) { return (void*)t; } };
template <> struct VT<boost::blank> { enum { id = 2, tracked = 0 }; static tok val(const boost::blank&) { return 0; } static boost::blank make(tok) { return boost::blank(); } };
typedef boost::variant<X<8>, CO<9> > In8;                // a variant as bounded type
struct InVal : boost::static_visitor<tok> { template <class T> tok operator()(const T& x) const { return x.t(); } };
template <> struct VT<In8> { enum { id = 7, tracked = 0 }; static tok val(const In8& x) { return boost::apply_visitor(InVal(), x); } static In8 make(tok t) { return In8(X<8>(X<8>::mk(), t)); } };
template <class T> struct VT<boost::recursive_wrapper<T> > : VT<T> {};
template <class T> struct VT<const T> : VT<T> {};
template <class T> struct unw { typedef T type; };
template <class T> struct unw<boost::recursive_wrapper<T> > { typedef T type; };

template <class... Ts> struct L { enum { n = sizeof...(Ts) }; };
template <int K, class... Ts> struct nth; template <class T, class... R> struct nth<0, T, R...> { typedef typename unw<T>::type type; };
template <int K, class T, class... R> struct nth<K, T, R...> : nth<K - 1, R...> {};

// ---- observer: the only window on the content that the drivers use (public API: apply_visitor)
struct Obs : boost::static_visitor<void> {
  int calls, id, tracked; const void* addr; tok val;
  Obs() noexcept : calls(0), id(-1), tracked(0), addr(0), val(0) {}
  template <class T> void operator()(const T& x) noexcept { ++calls; id = VT<T>::id; tracked = VT<T>::tracked; addr = std::addressof(x); val = VT<T>::val(x); }
};
template <class V> tok content(const V& v) { Obs o; boost::apply_visitor(o, v); return o.val; }

// structural invariant of a live variant over Ts...
template <class V, class... Ts> void check_valid(const V& v) {
  static const int ids[] = { (int)VT<Ts>::id... }; static const int tr[] = { (int)VT<Ts>::tracked... };
  int w = v.which();
  CHECKM(w >= 0 && w < (int)sizeof...(Ts), "which() is a valid index");
  CHECKM(!v.empty(), "empty() is false");
  Obs o; boost::apply_visitor(o, v);
  CHECKM(o.calls == 1, "visitation reaches the content exactly once");
  CHECKM(o.id == ids[w], "the content's type is the one which() names");
  int ty = -1; const void* p = 0; int k = vsa_owned(&v, sizeof(v), &ty, &p);
  if (tr[w]) { CHECKM(k == 1, "the variant owns exactly one live object"); CHECKM(ty == ids[w], "the owned object's type is the one which() names"); CHECKM(p == o.addr, "visitation yields the owned object"); }
  else if (ids[w] == 7) CHECKM(k == 1, "the variant owns exactly the content of its nested variant");
  else CHECKM(k == 0, "the variant owns no live object besides its content");
}
#endif
