#define VSA_MAIN
#include "kit.h"
#include "hist.h"
template <class V, class... Ts> Hist<V, Ts...> hist_of(const KitV<V, Ts...>*);
template <class K> void hist() { decltype(hist_of((K*)0))::run(0, 1); }
FOR_LISTS(hist, hist)
