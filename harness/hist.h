// Most-general client: two variants, every public mutator, any order, every throw point; fixpoint over histories.
#ifndef VSA_HIST_H
#define VSA_HIST_H
#include "types.h"
// of a long list the clients use the types at either end
template <int n, bool few = (n > 8)> struct HMap { enum { count = n }; static int at(int i) { return i; } };
template <int n> struct HMap<n, true> { enum { count = 3 }; static int at(int i) { return i ? i + n - 3 : 0; } };
template <class V, class... Ts> struct Hist { typedef HMap<(int)sizeof...(Ts)> H;
  template <int K> static typename nth<K, Ts...>::type mk() { return VT<typename nth<K, Ts...>::type>::make(vsa_fresh()); }
  template <int K, class Dummy = void> struct step {
    typedef typename nth<K, Ts...>::type T;
    static void assign_lvalue(V& v, int k) { if (k == K) { const T x(VT<T>::make(vsa_fresh())); v = x; } else step<K - 1>::assign_lvalue(v, k); }
    static void assign_nclvalue(V& v, int k) { if (k == K) { T x(VT<T>::make(vsa_fresh())); v = x; } else step<K - 1>::assign_nclvalue(v, k); }
    static void assign_rvalue(V& v, int k) { if (k == K) { T x(VT<T>::make(vsa_fresh())); v = std::move(x); } else step<K - 1>::assign_rvalue(v, k); }
    static void set_own(V& v, const V& o, int k) { if (k == K) { const T* p = boost::get<T>(&o); if (p) v = *p; } else step<K - 1>::set_own(v, o, k); }
  };
  template <class Dummy> struct step<-1, Dummy> { static void assign_lvalue(V&, int) {} static void assign_nclvalue(V&, int) {} static void assign_rvalue(V&, int) {} static void set_own(V&, const V&, int) {} };
  static void op(V& a, V& b, int o) {
    switch (o) {
      case 0: a = b; break;
      case 1: a = std::move(b); break;
      case 2: a.swap(b); break;
      case 3: swap(a, b); break;
      case 4: { V c(b); check_valid<V, Ts...>(c); a = c; break; }
      case 5: { V c(std::move(b)); check_valid<V, Ts...>(c); a = std::move(c); break; }
      case 6: { V& r = a; a = r; break; }
      case 7: { const V& cb = b; V c(cb); c.swap(a); break; }
      case 8: { V c(a); c = b; check_valid<V, Ts...>(c); break; }
    }
  }
  static void run(int first, int second) {
    V a(mk<0>()), b(mk<0>());
    vsa_throw_mode = 0;
    step<sizeof...(Ts) - 1>::assign_rvalue(a, first); step<sizeof...(Ts) - 1>::assign_rvalue(b, second);
    vsa_throw_mode = 1; vsa_alloc_mode(1);
    while (vsa_loop_forget()) {
      vsa_cover("loop");
      check_valid<V, Ts...>(a); check_valid<V, Ts...>(b);
      int thrown0 = vsa_thrown; (void)thrown0;
      try {
        int o = vsa_choose(9 + 4 * (int)H::count);
        if (o < 9) op(a, b, o);
        else { int k = H::at((o - 9) / 4); switch ((o - 9) % 4) { case 0: step<sizeof...(Ts) - 1>::assign_lvalue(a, k); break; case 1: step<sizeof...(Ts) - 1>::assign_rvalue(a, k); break; case 2: step<sizeof...(Ts) - 1>::assign_nclvalue(b, k); break; case 3: step<sizeof...(Ts) - 1>::set_own(a, b, k); break; } }
      } catch (Boom&) { vsa_cover("throw"); } catch (std::bad_alloc&) { vsa_cover("bad_alloc"); }
      vsa_thrown = 0; vsa_last_thrown = 0;
      check_valid<V, Ts...>(a); check_valid<V, Ts...>(b);
    }
    vsa_throw_mode = 0; vsa_alloc_mode(0);
  }
};
#endif
