#include "nl.hpp"
#ifndef NOSTATIC
#define D(k) ICtl *makeS##k(const Dims &);
D(1) D(2) D(3) D(4) D(5)
ICtl *makeStatic(int s, const Dims &d)
{
    switch (s) { case 1: return makeS1(d); case 2: return makeS2(d); case 3: return makeS3(d); case 4: return makeS4(d); case 5: return makeS5(d); }
    return nullptr;
}
#else
ICtl *makeStatic(int, const Dims &) { return nullptr; }
#endif
