// C08: condition variable without time
#include "condvar.hpp"
using namespace cvw;
SIM_SCENARIO("C08", c08_waits, 3) { drive({plain, pred, pred}, false); }
SIM_SCENARIO("C08", c08_mixed, 1) { drive({plain, pred, stoppred, tpred, tplain}, true); }
