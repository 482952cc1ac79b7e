#include "c01.h"
#include "sched_more.h"
#define C01_DYN false
C01_SCN(mk_mq,2,3)
C01_SCN(mk_steal,2,3)
C01_SCN(mk_smq,2,3)
C01_SCN(mk_comp,2,2)
C01_SCN(mk_mt,2,3)
#undef C01_DYN
#define C01_DYN true
C01_SCN(mk_io,2,3)
