// Nonlinear-controller conformance driver.  usage: nl_driver SCRIPT TRACE [raw]
// nlopt_optimize is wrapped (-Wl,--wrap): the wrapper reads the problem the library set up in the real NLopt
// object, probes the callbacks where the script says, and returns what the script says.
#include "nl.hpp"
#include <fstream>
#include <map>
#include <nlopt.h>

thread_local Play *gPlay = nullptr;
bool gPy = false, gRaw = false, gReal = false;
double gU = 1, gT = 1;
thread_local bool gRecord = false;
thread_local long gThrowNow = 0, gThrowType = 0;
thread_local std::set<std::string> gCalls;

std::string num(double v, double mult, double tol)
{
    if (gRaw) return "\"" + hx::bits(v) + "\"";
    return std::to_string(hx::enc(v, mult, tol));
}

// derivatives, in thousandths
template <class F> static std::string grads(size_t n, F f)
{
    if (!gRaw) return nums(n, f, 1000, 1.0);
    std::vector<std::string> r;
    for (size_t k = 0; k < n; k++) r.push_back("\"" + hx::digits(f(k)) + "\"");
    return hx::Ev::list(r);
}

// mirror of nlopt 2.7.1's private struct, checked at start (see selfTest)
extern "C" {
struct XCon { unsigned m; nlopt_func f; nlopt_mfunc mf; nlopt_precond pre; void *f_data; double *tol; };
struct XPar { char *name; double val; };
struct XOpt
{
    nlopt_algorithm algorithm; unsigned n; nlopt_func f; void *f_data; nlopt_precond pre; int maximize;
    XPar *params; unsigned nparams; double *lb, *ub;
    unsigned m, m_alloc; XCon *fc; unsigned p, p_alloc; XCon *h;
};
nlopt_result __real_nlopt_optimize(nlopt_opt opt, double *x, double *opt_f);
nlopt_result __wrap_nlopt_optimize(nlopt_opt opt, double *x, double *opt_f);
}
static double stF(unsigned, const double *, double *, void *) { return 1; }
static void stM(unsigned, double *, unsigned, const double *, double *, void *) {}
static void selfTest() 
{
    nlopt_opt o = nlopt_create(NLOPT_LD_SLSQP, 9);
    int a, b, c;
    double t[2] = {0.25, 0.5}, t3[3] = {1, 2, 3};
    nlopt_set_lower_bounds1(o, -7);
    nlopt_set_upper_bounds1(o, 9);
    nlopt_set_min_objective(o, stF, &a);
    nlopt_add_inequality_mconstraint(o, 2, stM, &b, t);
    nlopt_add_equality_mconstraint(o, 3, stM, &c, t3);
    nlopt_add_equality_mconstraint(o, 2, stM, &a, t);
    XOpt *x = (XOpt *)o;
    bool ok = x->n == 9 && x->f == stF && x->f_data == &a && x->lb[2] == -7 && x->ub[1] == 9 && x->m == 1 && x->fc[0].m == 2 &&
              x->fc[0].mf == stM && x->fc[0].f_data == &b && x->fc[0].tol[1] == 0.5 && x->p == 2 && x->h[0].m == 3 &&
              x->h[0].f_data == &c && x->h[0].tol[2] == 3 && x->h[1].m == 2 && x->h[1].f_data == &a;
    if (!ok) { std::fprintf(stderr, "nlopt struct layout not as expected\n"); std::exit(78); }
    nlopt_destroy(o);
}

static std::string evalCon(XCon *c, unsigned n, const double *z, bool grad, std::string &gout)
{
    std::vector<double> v(c->m, -12345.0), g(grad ? c->m * n : 0, -12345.0);
    if (c->mf) c->mf(c->m, v.data(), n, z, grad ? g.data() : nullptr, c->f_data);
    else v[0] = c->f(n, z, grad ? g.data() : nullptr, c->f_data);
    gout = grads(g.size(), [&](size_t k) { return g[k]; });
    return nums(v.size(), [&](size_t k) { return v[k]; }, 16 / gU);
}

nlopt_result __wrap_nlopt_optimize(nlopt_opt opt, double *x, double *opt_f)
{
    if (gReal || !gPlay) return __real_nlopt_optimize(opt, x, opt_f);
    Play &p = *gPlay;
    p.calls++;
    hx::pass();
    XOpt *o = (XOpt *)opt;
    const unsigned n = nlopt_get_dimension(opt);
    std::vector<double> lb(n), ub(n), xa(n);
    nlopt_get_lower_bounds(opt, lb.data());
    nlopt_get_upper_bounds(opt, ub.data());
    nlopt_get_xtol_abs(opt, xa.data());
    auto vec = [&](const double *v, double mult) { return nums(n, [&](size_t k) { return v[k]; }, mult); };
    p.lb = vec(lb.data(), 16 / gU);
    p.ub = vec(ub.data(), 16 / gU);
    p.st = vec(x, 16 / gU);
    {
        std::vector<std::string> q = {num(nlopt_get_ftol_rel(opt), 1024), num(nlopt_get_xtol_rel(opt), 1024), num(nlopt_get_ftol_abs(opt), 1024),
                                      num(nlopt_get_maxeval(opt), 1), num(nlopt_get_maxtime(opt), 8), num(nlopt_get_stopval(opt), 1)};
        for (double t : xa) q.push_back(num(t, 1024));
        p.par = hx::Ev::list(q);
    }
    auto regs = [&](unsigned cnt, XCon *c) {
        std::vector<std::string> r;
        for (unsigned k = 0; k < cnt; k++)
            if (c[k].m > 0)
                r.push_back(nums(c[k].m, [&](size_t j) { return c[k].tol ? c[k].tol[j] : 0.0; }, 1024 / gU, 1.0));
        return hx::Ev::list(r);
    };
    p.neq = regs(o->p, o->h);
    p.nin = regs(o->m, o->fc);
    p.hasobj = o->f != nullptr ? (o->maximize ? 2 : 1) : 0;
    p.probesOut = "[]";
    hx::clockNs() += p.advMs * hx::tick();
    auto fin = [&](long r) { p.acc = r; return (nlopt_result)r; };
    if (!o->f) return fin(NLOPT_INVALID_ARGS);
    *opt_f = HUGE_VAL;
    nlopt_set_force_stop(opt, 0);
    for (unsigned k = 0; k < n; k++)
        if (lb[k] > ub[k] || !(x[k] >= lb[k]) || !(x[k] <= ub[k])) return fin(NLOPT_INVALID_ARGS);
    std::vector<std::string> outs;
    long pi = 0;
    for (auto &pr : p.probes)
    {
        pi++;
        std::vector<double> z(n);
        for (unsigned k = 0; k < n; k++) z[k] = pr.z[k] / 2.0 * gU;
        const bool grad = pr.flags & 1, rev = pr.flags & 2;
        hx::pass();
        gRecord = !(pr.flags & 4);
        gCalls.clear();
        gThrowNow = p.thrKind && p.thrProbe == pi ? p.thrKind : 0;
        gThrowType = p.thrType;
        std::string ov, og = "[]";
        std::vector<std::string> ev, eg, iv, ig;
        bool stop = false;
        auto doObj = [&] {
            if (stop) return;
            std::vector<double> g(grad ? n : 0, -12345.0);
            double v = o->f(n, z.data(), grad ? g.data() : nullptr, o->f_data);
            ov = num(v, 16 / gU);
            og = grads(g.size(), [&](size_t k) { return g[k]; });
            stop = nlopt_get_force_stop(opt) != 0;
        };
        auto doCons = [&](unsigned cnt, XCon *c, std::vector<std::string> &V, std::vector<std::string> &G) {
            for (unsigned k = 0; k < cnt && !stop; k++)
            {
                if (c[k].m == 0) continue;
                std::string g;
                V.push_back(evalCon(&c[k], n, z.data(), grad, g));
                G.push_back(g);
                stop = nlopt_get_force_stop(opt) != 0;
            }
        };
        if (!rev) { doObj(); doCons(o->m, o->fc, iv, ig); doCons(o->p, o->h, ev, eg); }
        else { doCons(o->p, o->h, ev, eg); doCons(o->m, o->fc, iv, ig); doObj(); }
        gThrowNow = 0;
        hx::Ev e;
        e.v("z", pr.z).i("fl", pr.flags).i("stop", stop);
        if (!stop)
        {
            e.raw("obj", ov).raw("og", og).raw("eq", hx::Ev::list(ev)).raw("eqg", hx::Ev::list(eg));
            e.raw("in", hx::Ev::list(iv)).raw("ing", hx::Ev::list(ig));
        }
        std::string c = "[";
        for (auto &s : gCalls) { if (c.size() > 1) c += ","; c += s; }
        e.raw("calls", c + "]");
        outs.push_back(e.end());
        gRecord = false;
        gCalls.clear();
        if (stop) { p.probesOut = hx::Ev::list(outs); return fin(NLOPT_FORCED_STOP); }
    }
    p.probesOut = hx::Ev::list(outs);
    for (unsigned k = 0; k < n; k++) x[k] = p.rz[k] / 2.0 * gU;
    *opt_f = p.f / 16.0 * gU;
    hx::pass();
    if (p.thrKind && p.thrProbe == 0) { gThrowNow = p.thrKind; gThrowType = p.thrType; }
    return fin(p.ret);
}

long liveBlocks();

int main(int argc, char **argv)
{
    if (argc < 3) return 77;
    selfTest();
    std::ifstream in(argv[1]);
    hx::out() = std::fopen(argv[2], "w");
    gPy = argc > 3 && std::string(argv[3]) == "py";
    const bool thr = argc > 3 && std::string(argv[3]) == "thr";
    gRaw = gPy || thr || (argc > 3 && std::string(argv[3]) == "raw");
    if (argc > 3 && argv[3][0] == 'd') hx::tick() = std::atoll(argv[3] + 1);
    if (argc > 3 && argv[3][0] == 'u') gU = std::ldexp(1.0, std::atoi(argv[3] + 1)), gT = gU > 1 ? 1.0 / 4096 : 256;
    // the library logs to std::cout by default: keep it off the terminal
    std::ostringstream sink;
    std::cout.rdbuf(sink.rdbuf());
    std::map<long, ICtl *> ctl;
    auto step = [&](hx::Line l) {
        long id = l.next();
        l.a.erase(l.a.begin());
        l.p = 0;
        sink.str("");
        if (l.op == "new")
        {
            long shape = l.next(), dyn = l.next();
            auto v = l.take(7);
            Dims d{(int)v[0], (int)v[1], (int)v[2], (int)v[3], (int)v[4], (int)v[5], (int)v[6]};
            if (ctl.count(id)) delete ctl[id];
            ctl[id] = dyn ? makeDyn(d) : makeStatic((int)shape, d);
            if (!ctl[id]) { std::fprintf(stderr, "no static shape %ld\n", shape); std::exit(77); }
            hx::Ev e;
            e.str("op", "new").i("i", id).v("a", gRaw ? v : l.a).i("r", 1);
            hx::emit(e);
        }
        else if (l.op == "free")
        {
            delete ctl[id];
            ctl.erase(id);
            hx::Ev e;
            e.str("op", "free").i("i", id).i("r", 1);
            hx::emit(e);
        }
        else
        {
            if (!ctl.count(id)) { std::fprintf(stderr, "no controller %ld\n", id); std::exit(77); }
            ctl[id]->exec(l, id);
        }
    };
    auto drop = [&] { for (auto &kv : ctl) delete kv.second; ctl.clear(); sink.str(""); };
    hx::Line l;
    if (thr || (argc > 3 && std::string(argv[3]) == "mem"))
    {
        std::vector<hx::Line> all;
        while (hx::readLine(in, l)) all.push_back(l);
        if (thr) { hx::threads(all, step); drop(); }
        else hx::rounds(all, step, drop, liveBlocks);
    }
    else
    {
        while (hx::readLine(in, l)) step(l);
        drop();
    }
    std::cout.rdbuf(nullptr);
    hx::Ev e;
    e.str("op", "end").i("i", 0).i("r", 1);
    hx::emit(e);
    return 0;
}
