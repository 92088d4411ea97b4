// one static shape: -DSH=id -DSHAPE=nx,nu,ndu,ny,ph,ch
#include "lm_ctl.hpp"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
ICtl *CAT(makeS, SH)(const Dims &d) { return new Ctl<SHAPE>(d); }
