#include "real_ctl.hpp"
ICtl *makeRealDyn(const Dims &d, long kind) { return new Ctl<-1, -1, -1, -1, -1, -1, -1>(d, kind); }
