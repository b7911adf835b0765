//@std 17 11
//@std+ 14 20 2b
//@cover all:done drv_throwing:threw drv_rw_throwing:threw drv_rw_throwing:oom
#define VSA_MAIN
#include "kit.h"
using boost::variant; using boost::get; using boost::recursive_wrapper;
struct Pod2 { int a; void* b; }; enum En2 { e0, e1 };
template <class T> tok dt() { return vsa_sym(DEFAULTED + 100 * VT<T>::id); }
// storage that is not zero beforehand: value-initialisation must be done by the variant
template <class V> struct Dirty { alignas(V) unsigned char b[sizeof(V)]; V* p; Dirty() : p(0) { for (unsigned i = 0; i < sizeof(V); ++i) b[i] = 0xAA; p = new (static_cast<void*>(b)) V(); } ~Dirty() { p->~V(); } };
extern "C" void drv_scalar() {
  { Dirty<variant<int, X<1> > > d; CHECKM(d.p->which() == 0 && get<int>(*d.p) == 0, "an int first type is zero"); }
  { Dirty<variant<void*, X<1> > > d; CHECKM(d.p->which() == 0 && get<void*>(*d.p) == 0, "a pointer first type is null"); }
  { Dirty<variant<Pod2, X<1> > > d; CHECKM(d.p->which() == 0 && get<Pod2>(*d.p).a == 0 && get<Pod2>(*d.p).b == 0, "a POD first type is value-initialised"); }
  { Dirty<variant<En2, int> > d; CHECKM(d.p->which() == 0 && get<En2>(*d.p) == e0, "an enum first type is zero"); }
  { Dirty<variant<bool, int> > d; CHECKM(d.p->which() == 0 && get<bool>(*d.p) == false, "a bool first type is false"); }
  vsa_cover("done"); }
extern "C" void drv_class() {
  { Dirty<variant<ND<0>, X<1> > > d; CHECKM(d.p->which() == 0, "index 0"); CHECK_SAME(content(*d.p), dt<ND<0> >(), "a class first type is default-constructed"); check_valid<variant<ND<0>, X<1> >, ND<0>, X<1> >(*d.p); }
  { Dirty<variant<XD<0>, int> > d; CHECKM(d.p->which() == 0, "index 0"); CHECK_SAME(content(*d.p), dt<XD<0> >(), "a class first type is default-constructed"); }
  { Dirty<variant<recursive_wrapper<ND<0> >, int> > d; CHECKM(d.p->which() == 0, "index 0, not a later nothrow default type"); CHECK_SAME(content(*d.p), dt<ND<0> >(), "a wrapped first type is default-constructed"); }
  { Dirty<variant<boost::blank, X<1> > > d; CHECKM(d.p->which() == 0 && get<boost::blank>(d.p), "blank"); }
  vsa_cover("done"); }
template <class V, class... Ts> void may_throw() { vsa_thrown = 0; vsa_throw_mode = 1; vsa_alloc_mode(1);
  try { V v; vsa_throw_mode = 0; vsa_alloc_mode(0); CHECKM(v.which() == 0 && vsa_thrown == 0, "default construction yields index 0"); check_valid<V, Ts...>(v); vsa_cover("done"); }
  catch (Boom& e) { vsa_throw_mode = 0; vsa_alloc_mode(0); CHECK_SAME(e.id, vsa_last_thrown, "the first type's exception propagates"); vsa_cover("threw"); } catch (std::bad_alloc&) { vsa_throw_mode = 0; vsa_alloc_mode(0); vsa_cover("oom"); } }
extern "C" void drv_throwing() { may_throw<variant<XD<0>, N<1>, X<2> >, XD<0>, N<1>, X<2> >(); may_throw<variant<XD<0> >, XD<0> >(); }
extern "C" void drv_rw_throwing() { may_throw<variant<recursive_wrapper<XD<0> >, N<1> >, recursive_wrapper<XD<0> >, N<1> >(); }
extern "C" void drv_type_nested() { typedef variant<int, X<1> > I; typedef variant<I, recursive_wrapper<X<2> >, const char*> V; I i(3); V v(i); CHECKM(v.which() == 0 && &v.type() == &typeid(I), "a nested variant's type is the variant type"); X<2> x(X<2>::mk(), vsa_fresh()); v = x; CHECKM(v.which() == 1 && &v.type() == &typeid(X<2>), "a wrapped type reports the inner type"); v = "s"; CHECKM(v.which() == 2 && &v.type() == &typeid(const char*), "pointer type"); vsa_cover("done"); }
