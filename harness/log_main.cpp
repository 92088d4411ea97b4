// Logger conformance driver.  usage: log_driver SCRIPT TRACE
#include "hx.hpp"
#include <mpc/LMPC.hpp>
#include <mpc/NLMPC.hpp>
#include <fstream>
#include <memory>

using mpc::Logger;
void part2(long k);                  // a second translation unit uses the same logger
void open2(long t);
const char *PRE[] = {"", "a", "robot 1", "[x] ", "MPC++ - a somewhat longer prefix, with (punctuation)"};

static void part(long k)
{
    Logger &l = Logger::instance();
    switch (k)
    {
    case 1: l << "hello"; break;
    case 2: l << std::string("two words"); break;
    case 3: l << 42; break;
    case 4: l << -7L; break;
    case 5: l << 2.5; break;
    case 6: l << 'c'; break;
    case 7: l << std::endl; break;
    case 8: l << ""; break;
    case 9: { Eigen::Matrix<double, 1, 3> v; v << 1, 2, 3; l << v; break; }
    case 10: l << 4000000000u; break;
    case 11: l << true; break;
    case 12: l << "  indented "; break;
    default: std::exit(77);
    }
}
struct Obj { long k; };
static std::ostream &operator<<(std::ostream &o, const Obj &p)
{
    switch (p.k)
    {
    case 1: return o << "hello"; case 2: return o << "two words"; case 3: return o << 42; case 4: return o << -7; case 5: return o << 2.5;
    case 6: return o << 'c'; case 7: return o << '\n'; case 8: return o; case 9: return o << "1 2 3"; case 10: return o << 4000000000u;
    case 11: return o << 1; case 12: return o << "  indented ";
    }
    std::exit(77);
}

using NLs = mpc::NLMPC<1, 1, 1, 2, 1, 0, 0>;
using NLd = mpc::NLMPC<>;
using LMs = mpc::LMPC<1, 1, 0, 1, 2, 1>;
using LMd = mpc::LMPC<>;

int main(int argc, char **argv)
{
    if (argc < 3) return 77;
    std::ifstream in(argv[1]);
    hx::out() = std::fopen(argv[2], "w");
    std::ostringstream s[3];
    std::cout.rdbuf(s[0].rdbuf());
    std::ostream *str[3] = {&std::cout, &s[1], &s[2]};
    std::unique_ptr<NLs> a;
    std::unique_ptr<NLd> b;
    std::unique_ptr<LMs> c;
    std::unique_ptr<LMd> d;
    auto make = [&](long k) {
        if (k == 1 && !a) a.reset(new NLs());
        if (k == 2 && !b) b.reset(new NLd(1, 1, 1, 2, 1, 0, 0));
        if (k == 3 && !c) c.reset(new LMs());
        if (k == 4 && !d) d.reset(new LMd(1, 1, 0, 1, 2, 1));
    };
    hx::Line l;
    std::vector<hx::Line> all;
    while (hx::readLine(in, l)) all.push_back(l);
    // a controller logs while it is built: have those the script needs before the first event, unseen
    bool lib = false;
    for (auto &x : all)
    {
        if (x.op == "lib") lib = true;
        if (x.op == "level" || x.op == "prefix") if (x.a.at(1)) lib = true;
    }
    if (lib)
    {
        for (long k = 1; k <= 4; k++) make(k);
        Logger::instance().log(Logger::DETAIL);
    }
    for (auto &x : s) x.str("");
    for (auto &x : all)
    {
        l = x;
        l.p = 0;
        bool r = true;          // what a controller's setter returned
        if (l.op == "level")
        {
            auto v = (Logger::log_level)l.next();
            long w = l.next();
            if (w == 0) Logger::instance().setLevel(v);
            if (w == 1) r = a->setLoggerLevel(v);
            if (w == 2) r = b->setLoggerLevel(v);
            if (w == 3) r = c->setLoggerLevel(v);
            if (w == 4) r = d->setLoggerLevel(v);
        }
        else if (l.op == "prefix")
        {
            std::string v = PRE[l.next() - 1];
            long w = l.next();
            if (w == 0) Logger::instance().setPrefix(v);
            if (w == 1) r = a->setLoggerPrefix(v);
            if (w == 2) r = b->setLoggerPrefix(v);
            if (w == 3) r = c->setLoggerPrefix(v);
            if (w == 4) r = d->setLoggerPrefix(v);
        }
        else if (l.op == "stream") Logger::instance().setStream(str[l.next() - 1]);
        else if (l.op == "reset") Logger::instance().reset();
        else if (l.op == "log")
        {
            long t = l.next();
            if (l.next()) open2(t);
            else Logger::instance().log((Logger::log_type)t);
        }
        else if (l.op == "part")
        {
            long k = l.next();
            if (l.next()) part2(k);
            else part(k);
        }
        else if (l.op == "msg")
        {
            long t = l.next(), p = l.next(), q = l.next();
            Logger::instance().log((Logger::log_type)t) << Obj{p} << Obj{q} << std::endl;
        }
        else if (l.op == "lib")
        {
            long k = l.next();
            Eigen::Matrix<double, 1, 1> v;
            v << 1;
            mpc::cvec<> w = v;
            if (k == 1) a->setStateBounds(-v, v, mpc::HorizonSlice(1, 9));
            if (k == 2) b->setInputBounds(-w, w, mpc::HorizonSlice(0, 1));
            if (k == 3) c->setOutputBounds(-v, v, mpc::HorizonSlice(-1, -1));
            if (k == 4) d->setStateBounds(-w, w, mpc::HorizonSlice(2, 1));
            if (k == 5) { NLs t; t.setDiscretizationSamplingTime(0.5); }
            if (k == 6) { mpc::NLParameters p; p.maximum_iteration = 3; a->setOptimizerParameters(p); }
            if (k == 7) d->setReferences(w, w, w, mpc::HorizonSlice(0, 1));
        }
        else std::exit(77);
        hx::Ev e;
        std::string o = "[";
        for (int k = 0; k < 3; k++)
        {
            hx::Ev t;
            t.str("t", s[k].str());
            std::string q = t.end();
            o += std::string(k ? "," : "") + q.substr(5, q.size() - 6);
            s[k].str("");
        }
        e.str("op", l.op).i("i", 0).v("a", l.a).i("r", r).raw("o", o + "]");
        hx::emit(e);
    }
    hx::Ev e;
    e.str("op", "end").i("i", 0);
    hx::emit(e);
    std::_Exit(0);          // the streams outlive the logger only until main returns
}
