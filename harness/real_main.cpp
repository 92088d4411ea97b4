// Closed-loop driver with the real solver.  usage: real_driver SCRIPT TRACE
#include "real.hpp"
#include <mpc/Logger.hpp>
#include <fstream>
#include <map>
#define D(k) ICtl *makeR##k(const Dims &, long);
D(1) D(2) D(3) D(4) D(5)
ICtl *makeReal(int s, const Dims &d, long kind)
{
    switch (s) { case 1: return makeR1(d, kind); case 2: return makeR2(d, kind); case 3: return makeR3(d, kind); case 4: return makeR4(d, kind); case 5: return makeR5(d, kind); }
    return nullptr;
}
int main(int argc, char **argv)
{
    if (argc < 3) return 77;
    std::ifstream in(argv[1]);
    hx::out() = std::fopen(argv[2], "w");
    mpc::Logger::instance().setLevel(mpc::Logger::NONE);
    std::map<long, ICtl *> ctl;
    hx::Line l;
    while (hx::readLine(in, l))
    {
        long id = l.next();
        l.a.erase(l.a.begin());
        l.p = 0;
        if (l.op == "new")
        {
            long shape = l.next(), dyn = l.next();
            auto v = l.take(7);
            long kind = l.next();
            Dims d{(int)v[0], (int)v[1], (int)v[2], (int)v[3], (int)v[4], (int)v[5], (int)v[6]};
            if (ctl.count(id)) delete ctl[id];
            ctl[id] = dyn ? makeRealDyn(d, kind) : makeReal((int)shape, d, kind);
            hx::Ev e;
            e.str("op", "new").i("i", id).v("a", l.a);
            hx::emit(e);
        }
        else if (ctl.count(id)) ctl[id]->exec(l, id);
        else return 77;
    }
    for (auto &kv : ctl) delete kv.second;
    hx::Ev e;
    e.str("op", "end").i("i", 0);
    hx::emit(e);
    return 0;
}
