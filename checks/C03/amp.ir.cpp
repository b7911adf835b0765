//@std 17
//@std+ 11 14 20 2b
//@ignore LEAK-OBJECT LEAK-HEAP
//@cover all:done
#define VSA_MAIN
#include "kit.h"
// a bounded type that overloads unary operator& is copied like any other (kept to the plain copy operations)
typedef Kit<X<0>, YA<1> > KY;
extern "C" void drv_amp_assign() { V0_(KY, a); KY::any_type(a); V0_(KY, b); KY::any_type(b); St s = KY::obs(a); b = static_cast<const KY::V&>(a); KY::valid(b); KY::same_content(KY::obs(b), s, "the copy holds the source's type and value"); KY::same_content(KY::obs(a), s, "the source still holds its type and value"); vsa_cover("done"); }
extern "C" void drv_amp_construct() { V0_(KY, a); KY::any_type(a); St s = KY::obs(a); KY::V b(static_cast<const KY::V&>(a)); KY::valid(b); KY::same_content(KY::obs(b), s, "the copy holds the source's type and value"); vsa_cover("done"); }
extern "C" void drv_amp_value() { V0_(KY, b); KY::any_type(b); YA<1> y(YA<1>::mk(), vsa_fresh()); b = y; KY::valid(b); CHECKM(b.which() == 1, "the assigned type"); CHECK_SAME(KY::obs(b).val, y.t(), "the assigned value"); vsa_cover("done"); }
