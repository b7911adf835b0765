//@std 17 11
//@std+ 14 20 2b
//@args --lint-odr
//@config minimal: -DBOOST_VARIANT_MINIMIZE_SIZE
//@config+ relaxed: -DBOOST_VARIANT_USE_RELAXED_GET_BY_DEFAULT
//@ignore LEAK-OBJECT LEAK-HEAP
//@cover all:done
// the whole interface instantiated: every definition that comes from the library's headers has to be mergeable with the
// same definition in another translation unit
#include "../C17/all.ir.cpp"
