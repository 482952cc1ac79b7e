#include "c02.h"
#include "sched_more.h"
C02_SCN(mk_mq,2,3)
C02_SCN(mk_steal,2,3)
C02_SCN(mk_smq,2,3)
