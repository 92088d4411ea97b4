#pragma once
#include "nl.hpp"
#include "mk.hpp"
#include <mpc/NLMPC.hpp>
#ifdef VIA_PY
#include "pyface.hpp"
#endif
#include <map>
#include <sstream>

using hx::Ev;
using hx::W;

template <int NX, int NU, int NY, int PH, int CH, int NI, int NE>
struct Ctl : ICtl
{
#ifdef VIA_PY
    using M = pyx::NL;
#else
    using M = mpc::NLMPC<NX, NU, NY, PH, CH, NI, NE>;
#endif
    static constexpr bool dyn = NX == Eigen::Dynamic;
    static constexpr int P1 = dyn ? Eigen::Dynamic : PH + 1;
    using CX = mpc::cvec<NX>; using CU = mpc::cvec<NU>; using CY = mpc::cvec<NY>;
    using CI = mpc::cvec<NI>; using CE = mpc::cvec<NE>;
    using MX = mpc::mat<P1, NX>; using MU = mpc::mat<P1, NU>; using MY = mpc::mat<P1, NY>;
    Dims d;
    std::unique_ptr<M> m;
    bool cont = false;      // a sampling time was set: the state function is a time derivative

    explicit Ctl(const Dims &dd) : d(dd)
    {
        if constexpr (dyn) m.reset(new M(d.nx, d.nu, d.ny, d.ph, d.ch, d.ni, d.ne));
        else m.reset(new M());
    }

    void record(long kind, const MX *X, const MY *Y, const MU *U, double e)
    {
        if (!gRecord) return;
        auto put = [&](std::string &s, double v, double mult) {
            s += "," + std::to_string(hx::enc(v, mult / gU, 0.2));      // finite differences evaluate nearby
        };
        std::string s = "[" + std::to_string(kind);
        for (int k = 0; k <= d.ph; k++) for (int i = 0; i < d.nx; i++) put(s, (*X)(k, i), 2);
        for (int k = 0; k <= d.ph; k++) for (int i = 0; i < d.nu; i++) put(s, (*U)(k, i), 2);
        if (Y) for (int k = 0; k <= d.ph; k++) for (int i = 0; i < d.ny; i++) put(s, (*Y)(k, i), 4);
        if (kind != 3) put(s, e, 2);
        gCalls.insert(s + "]");
    }

    void exec(hx::Line &l, long id) override
    {
        const int nx = d.nx, nu = d.nu, ny = d.ny, ph = d.ph, ch = d.ch, ni = d.ni, ne = d.ne;
        Ev e;
        e.str("op", l.op).i("i", id).v("a", l.a);
        long r = 1;
        auto guard = [&](auto f) {
            try { r = f(); }
            catch (const std::exception &) { r = -99; }
            catch (...) { r = -98; }
        };
        if (l.op == "xb" || l.op == "ub" || l.op == "yb")
        {
            int n = l.op == "xb" ? nx : l.op == "ub" ? nu : ny;
            int s = (int)l.next(), t = (int)l.next();
            auto lo = l.take(n), hi = l.take(n);
            mpc::HorizonSlice sl(s, t);
            if (l.op == "xb") guard([&] { return (long)m->setStateBounds(mkv<CX>(lo, 2 / gU, n), mkv<CX>(hi, 2 / gU, n), sl); });
            else if (l.op == "ub") guard([&] { return (long)m->setInputBounds(mkv<CU>(lo, 2 / gU, n), mkv<CU>(hi, 2 / gU, n), sl); });
            else guard([&] { return (long)m->setOutputBounds(mkv<CY>(lo, 2 / gU, n), mkv<CY>(hi, 2 / gU, n), sl); });
        }
        else if (l.op == "xbm")
        {
            auto lo = l.take(nx * ph), hi = l.take(nx * ph);
            using MM = mpc::mat<NX, PH>;
            guard([&] { return (long)m->setStateBounds(mkm<MM>(lo, 2 / gU, nx, ph), mkm<MM>(hi, 2 / gU, nx, ph)); });
        }
        else if (l.op == "ybm")
        {
            auto lo = l.take(ny * ph), hi = l.take(ny * ph);
            using MM = mpc::mat<NY, PH>;
            guard([&] { return (long)m->setOutputBounds(mkm<MM>(lo, 2 / gU, ny, ph), mkm<MM>(hi, 2 / gU, ny, ph)); });
        }
        else if (l.op == "ubm")
        {
            auto lo = l.take(nu * ch), hi = l.take(nu * ch);
            using MM = mpc::mat<NU, CH>;
            guard([&] { return (long)m->setInputBounds(mkm<MM>(lo, 2 / gU, nu, ch), mkm<MM>(hi, 2 / gU, nu, ch)); });
        }
        else if (l.op == "par")
        {
            mpc::NLParameters p;
            p.relative_ftol = l.next() / 1024.0;
            p.relative_xtol = l.next() / 1024.0;
            p.absolute_ftol = l.next() / 1024.0;
            p.absolute_xtol = l.next() / 1024.0;
            p.maximum_iteration = (int)l.next();
            p.time_limit = l.next() / 8.0;
            p.enable_warm_start = l.next() != 0;
            p.hard_constraints = l.next() != 0;
            guard([&] { m->setOptimizerParameters(p); return 1L; });
        }
        else if (l.op == "sx") { auto v = l.take(nx); guard([&] { m->setStateScale(mkv<CX>(v, 1, nx)); return 1L; }); }
        else if (l.op == "su") { auto v = l.take(nu); guard([&] { m->setInputScale(mkv<CU>(v, 1, nu)); return 1L; }); }
        else if (l.op == "ts") { long v = l.next(); cont = true; guard([&] { return (long)m->setDiscretizationSamplingTime((double)v * gT); }); }
        else if (l.op == "state")
        {
            long s = l.next(), tol = l.next();
            auto f = [s, this](CX &dx, const CX &xr, const CU &ur, const unsigned int &k) {
                maybeThrow(2);
                const CX x = xr / gU;
                const CU u = ur / gU;
                const int nx = d.nx, nu = d.nu;
                const bool quad = s < 100;
                for (int j = 1; j <= nx; j++)
                {
                    double v = (double)W(s, j, 0, 24) * (double)k;
                    for (int i = 1; i <= nx; i++) v += W(s, j, i, 21) * x(i - 1);
                    for (int i = 1; i <= nu; i++) v += W(s, j, i, 22) * u(i - 1);
                    double xa = x(j % nx), ub = u(j % nu);
                    v += (double)k * (W(s, j, 3, 23) * xa + W(s, j, 4, 23) * ub);
                    if (quad) v += W(s, j, 1, 23) * xa * ub + W(s, j, 2, 23) * xa * xa;
                    dx(j - 1) = cont ? v * gU / gT : v * gU;
                }
            };
            guard([&] { return tol < 0 ? (long)m->setStateSpaceFunction(f) : (long)m->setStateSpaceFunction(f, (float)(tol / 1024.0 * gU)); });
        }
        else if (l.op == "out")
        {
            long s = l.next();
            auto f = [s, this](CY &y, const CX &xr, const CU &ur, const unsigned int &k) {
                maybeThrow(3);
                const CX x = xr / gU;
                const CU u = ur / gU;
                const int nx = d.nx, nu = d.nu, ny = d.ny;
                const bool quad = s < 100;
                for (int j = 1; j <= ny; j++)
                {
                    double v = (double)W(s, j, 0, 3) * (double)k;
                    for (int i = 1; i <= nx; i++) v += W(s, j, i, 1) * x(i - 1);
                    for (int i = 1; i <= nu; i++) v += W(s, j, i, 2) * u(i - 1);
                    v += (double)k * (W(s, j, 2, 4) * x(j % nx) + W(s, j, 3, 4) * u(j % nu));
                    if (quad) v += W(s, j, 1, 4) * x(j % nx) * u(j % nu);
                    y(j - 1) = v * gU;
                }
            };
            guard([&] { return s == 0 ? (long)m->setOutputFunction(nullptr) : (long)m->setOutputFunction(f); });
        }
        else if (l.op == "obj")
        {
            long s = l.next();
            auto f = [s, this](const MX &Xr, const MY &Yr, const MU &Ur, const double &er) -> double {
                maybeThrow(1);
                record(1, &Xr, &Yr, &Ur, er);
                const MX X = Xr / gU;
                const MU U = Ur / gU;
                const MY Y = Yr / gU;
                const double e = er / gU;
                const bool quad = s < 100;
                double v = W(s, 1, 3, 11) + W(s, 1, 1, 11) * e + (quad ? W(s, 1, 2, 11) * e * e : 0.0);
                for (int k = 0; k <= d.ph; k++)
                {
                    for (int i = 1; i <= d.nx; i++)
                        v += W(s, k + 1, i, 5) * X(k, i - 1) + (quad && k > 0 ? W(s, k + 1, i, 6) * X(k, i - 1) * X(k, i - 1) : 0.0);
                    for (int i = 1; i <= d.ny; i++)
                        v += W(s, k + 1, i, 7) * Y(k, i - 1) + (quad && k > 0 ? W(s, k + 1, i, 8) * Y(k, i - 1) * Y(k, i - 1) : 0.0);
                    for (int i = 1; i <= d.nu; i++)
                        v += W(s, k + 1, i, 9) * U(k, i - 1) + (quad ? W(s, k + 1, i, 10) * U(k, i - 1) * U(k, i - 1) : 0.0);
                    if (quad) v += W(s, k + 1, 1, 12) * X(k, 0) * U(k, 0);
                }
                return v * gU;
            };
            guard([&] { return (long)m->setObjectiveFunction(f); });
        }
        else if (l.op == "ineq")
        {
            long s = l.next(), tol = l.next(), off = l.next();
            auto f = [s, off, this](CI &g, const MX &Xr, const MY &Yr, const MU &Ur, const double &er) {
                maybeThrow(4);
                record(2, &Xr, &Yr, &Ur, er);
                const MX X = Xr / gU;
                const MU U = Ur / gU;
                const MY Y = Yr / gU;
                const double e = er / gU;
                const bool quad = s < 100;
                for (int q = 1; q <= d.ni; q++)
                {
                    double v = off / 4.0;
                    if (s > 0)
                    {
                        v += W(s, q, 1, 13) * e;
                        for (int k = 0; k <= d.ph; k++)
                        {
                            long a = q * 20 + k;
                            for (int i = 1; i <= d.nx; i++) v += W(s, a, i, 14) * X(k, i - 1);
                            for (int i = 1; i <= d.ny; i++) v += W(s, a, i, 15) * Y(k, i - 1);
                            for (int i = 1; i <= d.nu; i++) v += W(s, a, i, 16) * U(k, i - 1);
                            if (quad) v += W(s, a, 1, 17) * X(k, 0) * U(k, 0);
                        }
                    }
                    g(q - 1) = v * gU;
                }
                if (s >= 200 && d.ni > 0) g((s - 200) % d.ni) = std::numeric_limits<double>::quiet_NaN();
            };
            guard([&] { return tol < 0 ? (long)m->setIneqConFunction(f) : (long)m->setIneqConFunction(f, (float)(tol / 1024.0 * gU)); });
        }
        else if (l.op == "eq")
        {
            long s = l.next(), tol = l.next(), off = l.next();
            auto f = [s, off, this](CE &h, const MX &Xr, const MU &Ur) {
                maybeThrow(5);
                record(3, &Xr, nullptr, &Ur, 0);
                const MX X = Xr / gU;
                const MU U = Ur / gU;
                const bool quad = s < 100;
                for (int q = 1; q <= d.ne; q++)
                {
                    double v = off / 4.0;
                    if (s > 0)
                        for (int k = 0; k <= d.ph; k++)
                        {
                            long a = q * 20 + k;
                            for (int i = 1; i <= d.nx; i++) v += W(s, a, i, 18) * X(k, i - 1);
                            for (int i = 1; i <= d.nu; i++) v += W(s, a, i, 19) * U(k, i - 1);
                            if (quad) v += W(s, a, 1, 20) * X(k, 0) * U(k, 0);
                        }
                    h(q - 1) = v * gU;
                }
                if (s >= 200 && d.ne > 0) h((s - 200) % d.ne) = std::numeric_limits<double>::quiet_NaN();
            };
            guard([&] { return tol < 0 ? (long)m->setEqConFunction(f) : (long)m->setEqConFunction(f, (float)(tol / 1024.0 * gU)); });
        }
        else if (l.op == "opt")
        {
            const size_t nz = (size_t)(ph * nx + ch * nu + 1);
            auto x0 = l.take(nx), u0 = l.take(nu);
            Play p;
            long np = l.next();
            for (long k = 0; k < np; k++) { Probe q; q.flags = l.next(); q.z = l.take(nz); p.probes.push_back(q); }
            p.ret = l.next(); p.f = l.next(); p.rz = l.take(nz);
            p.thrKind = l.next(); p.thrProbe = l.next(); p.thrType = l.next(); p.advMs = l.next();
            gPlay = &p;
            gThrowNow = 0;
            Ev o;
            o.str("op", "opt").i("i", id).v("x0", x0).v("u0", u0).v("rz", p.rz).i("ret", p.ret).i("f", p.f);
            o.v("thr", {p.thrKind, p.thrProbe, p.thrType}).i("adv", p.advMs);
            std::string res;
            long thrown = 0;
            mpc::Result<NU> rr;
            try { rr = m->optimize(mkv<CX>(x0, 2 / gU, nx), mkv<CU>(u0, 2 / gU, nu)); }
            catch (const std::exception &) { thrown = 1; }
            catch (...) { thrown = 2; }
            gPlay = nullptr;
            gThrowNow = 0;
            o.i("n", p.calls).i("acc", p.acc).i("thrown", thrown);
            if (p.calls > 0)
                o.raw("lb", p.lb).raw("ub", p.ub).raw("st", p.st).raw("par", p.par).i("hasobj", p.hasobj).raw("neq", p.neq).raw("nin", p.nin).raw("probes", p.probesOut);
            o.raw("res", resStr(rr));
            auto lr = m->getLastResult();
            o.raw("last", resStr(lr));
            o.raw("seq", seqStr());
            hx::emit(o);
            return;
        }
        else if (l.op == "last")
        {
            auto lr = m->getLastResult();
            e.raw("res", resStr(lr)).raw("seq", seqStr());
        }
        else if (l.op == "stats")
        {
            const auto &s = m->getExecutionStats();
            if (gPy) { pyStats(e, s); e.i("r", r); hx::emit(e); return; }
            e.i("num", s.numberOfSolutions);
            e.raw("tot", num(s.totalSolutionTime.count(), 1e9 / hx::tick(), 1e-3));
            e.raw("min", s.numberOfSolutions ? num(s.minSolutionTime.count(), 1e9 / hx::tick(), 1e-3) : "0");
            e.raw("max", s.numberOfSolutions ? num(s.maxSolutionTime.count(), 1e9 / hx::tick(), 1e-3) : "0");
            e.raw("avg", num(s.averageSolutionTime.count(), 1e9 / hx::tick(), 1.0));
            e.raw("std", num(s.standardDeviation, 1e9 / hx::tick(), 1.0));
            std::vector<long> st(5, 0);
            for (auto &kv : s.solutionsStates) if ((int)kv.first >= 0 && (int)kv.first < 5) st[(int)kv.first] += kv.second;
            e.v("st", st);
            std::ostringstream os;
            os << s;
            const std::string txt = os.str();
            // the number printed after a name, in thousandths/hundredths
            auto field = [&](const std::string &name, double mult, long none) {
                size_t p = txt.find("- " + name + ":");
                if (p == std::string::npos) return std::to_string(none);
                return num(std::strtod(txt.c_str() + p + name.size() + 3, nullptr), mult, 1.0);
            };
            e.raw("ptxt", Ev::list({field("min", 1e9 / hx::tick(), -1), field("max", 1e9 / hx::tick(), -1), field("avg", 1e9 / hx::tick(), -1), field("std", 1e9 / hx::tick(), -1), field("tot", 1e9 / hx::tick(), -1), field("num", 1, -1)}));
            e.raw("pct", Ev::list({field("SUCCESS", 100, -1), field("MAX_ITERATION", 100, -1), field("INFEASIBLE", 100, -1), field("ERROR", 100, -1), field("UNKNOWN", 100, -1)}));
        }
        else if (l.op == "reset") m->resetStats();
        else if (l.op == "llev" || l.op == "lpre") logOp(*m, l, e);
        else if (l.op == "clk") hx::clockNs() += l.next() * hx::tick();
        else { std::fprintf(stderr, "unknown op %s\n", l.op.c_str()); std::exit(77); }
        e.i("r", r);
        hx::emit(e);
    }
    // [status, solver code, cost*16, feasible, has message, command length, command*2...]
    std::string resStr(const mpc::Result<NU> &r)
    {
        std::string s = "[" + std::to_string((long)r.status) + "," + std::to_string(r.solver_status) + "," + num(r.cost, 16 / gU) + "," +
                        std::to_string((long)r.is_feasible) + "," + std::to_string(r.solver_status_msg.empty() ? 0L : 1L);
        for (int k = 0; k < r.cmd.size(); k++) s += "," + num(r.cmd(k), 2 / gU);
        return s + "]";
    }
    std::string seqStr()
    {
        auto q = m->getOptimalSequence();
        Ev s;
        auto put = [&](const char *k, const auto &A, double mult) {
            std::vector<std::string> rows;
            for (int a = 0; a < A.rows(); a++) rows.push_back(nums(A.cols(), [&](size_t b) { return A(a, (int)b); }, mult));
            s.raw(k, Ev::list(rows));
        };
        put("x", q.state, 2 / gU);
        put("u", q.input, 2 / gU);
        put("y", q.output, 4 / gU);
        return s.end();
    }
};
