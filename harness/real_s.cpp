// one static shape: -DSH=id -DSHAPE=nx,nu,ny,ph,ch,ni,ne
#include "real_ctl.hpp"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
ICtl *CAT(makeR, SH)(const Dims &d, long kind) { return new Ctl<SHAPE>(d, kind); }
