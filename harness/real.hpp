#include "nl.hpp"
ICtl *makeRealDyn(const Dims &d, long kind);
ICtl *makeReal(int shape, const Dims &d, long kind);
