#include "c02.h"
#include "sched_more.h"
C02_SCN(mk_comp,2,2)
C02_SCN(mk_mt,2,3)
C02_SCN(mk_io,2,3)
