//@std 17
//@std+ 11 14 20 2b
//@flags -DVSA_HIST
//@config l1: -DLS=1
//@config l2: -DLS=2
//@config l3: -DLS=3
//@config l7: -DLS=7
//@config l10: -DLS=10
//@config l8: -DLS=8
//@config l5: -DLS=5
//@config l4: -DLS=4
//@cover all:loop any:throw
#include "drv_hist.h"
