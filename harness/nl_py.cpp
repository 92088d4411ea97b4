#define VIA_PY
#include "nl_ctl.hpp"
ICtl *makeDyn(const Dims &d) { return new Ctl<-1, -1, -1, -1, -1, -1, -1>(d); }
