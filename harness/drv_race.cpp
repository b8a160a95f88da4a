// The core driver with every memory access of parallel regions recorded.
// Groups that can be left out: NO_TINY NO_S1 NO_S2 NO_PRINT NO_MENTRY NO_PARAM NO_PERCENT NO_P2 NO_PHI NO_LMO NO_DRP NO_PREC
#define RACE
#include "racerec.hpp"
#ifndef NO_FACTOR
#include <FactorTable.hpp>
#endif
#ifndef NO_STATUS
#include <S2Status.hpp>
#endif
#include "drv_core.cpp"
