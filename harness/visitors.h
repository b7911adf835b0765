#ifndef VSA_VISITORS_H
#define VSA_VISITORS_H
#include "kit.h"
enum { CAT_L = 1, CAT_CL = 2, CAT_R = 3, CAT_CR = 4 };
template <class T> struct cat_of { enum { v = CAT_R }; }; template <class T> struct cat_of<const T> { enum { v = CAT_CR }; };
template <class T> struct cat_of<T&&> { enum { v = CAT_R }; }; template <class T> struct cat_of<const T&&> { enum { v = CAT_CR }; };
template <class T> struct cat_of<T&> { enum { v = CAT_L }; }; template <class T> struct cat_of<const T&> { enum { v = CAT_CL }; };
template <class T> struct bare { typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type type; };
struct RecBase { int calls, id, cat, was_const; const void* addr; tok val; int slot;
  RecBase() noexcept : calls(0), id(-1), cat(0), was_const(-1), addr(0), val(0), slot(0) {}
  template <class T> tok note(const typename bare<T>::type& x, int c) { ++calls; id = VT<typename bare<T>::type>::id; cat = cat_of<T>::v; was_const = c; addr = std::addressof(x); val = VT<typename bare<T>::type>::val(x); return vsa_term1(OP_CALL, val); } };
// records what it is called with; non-const call operator
struct Rec : RecBase, boost::static_visitor<tok> { template <class T> tok operator()(T&& x) { return note<T>(x, 0); } };
// both call operators
struct Rec2 : RecBase, boost::static_visitor<tok> { template <class T> tok operator()(T&& x) { return note<T>(x, 0); } template <class T> tok operator()(T&& x) const { return const_cast<Rec2*>(this)->template note<T>(x, 1); } };
struct RecRef : RecBase, boost::static_visitor<int&> { template <class T> int& operator()(T&& x) { note<T>(x, 0); return slot; } };
struct RecVoid : RecBase, boost::static_visitor<> { template <class T> void operator()(T&& x) { note<T>(x, 0); } };
struct RecOwn : RecBase { typedef tok result_type; template <class T> tok operator()(T&& x) { return note<T>(x, 0); } };   // result_type without static_visitor
struct RecBare : RecBase { template <class T> tok operator()(T&& x) { return note<T>(x, 0); } template <class T> tok operator()(T&& x) const { return const_cast<RecBare*>(this)->template note<T>(x, 1); } };   // no result_type at all (C++14)
template <class K> void called(const RecBase& r, const St& s, int cat) {
  CHECKM(r.calls == 1, "the visitor is called exactly once"); CHECKM(r.id == s.id, "the visitor is called with the content's own type");
  CHECKM(r.addr == s.addr, "the visitor is called with the stored object itself"); CHECK_SAME(r.val, s.val, "the visitor sees the stored value");
  CHECKM(r.cat == cat, "the visitor sees the variant's constness and value category");
}
#endif
