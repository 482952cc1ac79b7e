#include "c02.h"
C02_SCN(mk_single,2,3)
C02_SCN(mk_pool,2,3)
