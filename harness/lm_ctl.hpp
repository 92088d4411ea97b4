#pragma once
#include "lm.hpp"
#include "mk.hpp"
#include <mpc/LMPC.hpp>
#ifdef VIA_PY
#include "pyface.hpp"
#endif
#include <sstream>

using hx::Ev;

template <int NX, int NU, int NDU, int NY, int PH, int CH>
struct Ctl : ICtl
{
#ifdef VIA_PY
    using M = pyx::LM;
#else
    using M = mpc::LMPC<NX, NU, NDU, NY, PH, CH>;
#endif
    using CX = mpc::cvec<NX>; using CU = mpc::cvec<NU>; using CY = mpc::cvec<NY>; using CD = mpc::cvec<NDU>;
    static constexpr bool dyn = NX == Eigen::Dynamic;
    Dims d;
    std::unique_ptr<M> m;
    // units of states, inputs, outputs, disturbances, scalar constraints and cost
    double ux = 1, uu = 1, uy = 1, ud = 1, us = 1, uw = 1;
    double unit(long k) const { return gUnits ? std::ldexp(1.0, (int)((gUnits * 7 + k * 11 + gUnits * k * 5 + d.nx + 2 * d.ph) % 3 - 1) * (gUnits < 5 ? 12 : 26)) : 1.0; }
    std::vector<double> unitsZ() const
    {
        std::vector<double> r;
        for (int k = 0; k <= d.ph; k++) { r.insert(r.end(), d.nx, ux); r.insert(r.end(), d.nu, uu); }
        r.insert(r.end(), (size_t)d.ph * d.nu, uu);
        return r;
    }
    explicit Ctl(const Dims &dd) : d(dd)
    {
        ux = unit(0); uu = unit(1); uy = unit(2); ud = unit(3); us = unit(4); uw = unit(5);
        if constexpr (dyn) m.reset(new M(d.nx, d.nu, d.ndu, d.ny, d.ph, d.ch));
        else m.reset(new M());
    }
    void exec(hx::Line &l, long id) override
    {
        const int nx = d.nx, nu = d.nu, ny = d.ny, ndu = d.ndu, ph = d.ph, ch = d.ch;
        Ev e;
        e.str("op", l.op).i("i", id).v("a", l.a);
        long r = 1;
        auto guard = [&](auto f) {
            try { r = f(); }
            catch (const std::exception &) { r = -99; }
            catch (...) { r = -98; }
        };
        auto slice = [&] { int s = (int)l.next(), t = (int)l.next(); return mpc::HorizonSlice(s, t); };
        if (l.op == "xb") { auto s = slice(); auto lo = l.take(nx), hi = l.take(nx); guard([&] { return (long)m->setStateBounds(mkv<CX>(lo, 1 / ux, nx), mkv<CX>(hi, 1 / ux, nx), s); }); }
        else if (l.op == "ub") { auto s = slice(); auto lo = l.take(nu), hi = l.take(nu); guard([&] { return (long)m->setInputBounds(mkv<CU>(lo, 1 / uu, nu), mkv<CU>(hi, 1 / uu, nu), s); }); }
        else if (l.op == "yb") { auto s = slice(); auto lo = l.take(ny), hi = l.take(ny); guard([&] { return (long)m->setOutputBounds(mkv<CY>(lo, 1 / uy, ny), mkv<CY>(hi, 1 / uy, ny), s); }); }
        else if (l.op == "xbm") { auto lo = l.take(nx * ph), hi = l.take(nx * ph); using MM = mpc::mat<NX, PH>; guard([&] { return (long)m->setStateBounds(mkm<MM>(lo, 1 / ux, nx, ph), mkm<MM>(hi, 1 / ux, nx, ph)); }); }
        else if (l.op == "ubm") { auto lo = l.take(nu * ch), hi = l.take(nu * ch); using MM = mpc::mat<NU, CH>; guard([&] { return (long)m->setInputBounds(mkm<MM>(lo, 1 / uu, nu, ch), mkm<MM>(hi, 1 / uu, nu, ch)); }); }
        else if (l.op == "ybm") { auto lo = l.take(ny * ph), hi = l.take(ny * ph); using MM = mpc::mat<NY, PH>; guard([&] { return (long)m->setOutputBounds(mkm<MM>(lo, 1 / uy, ny, ph), mkm<MM>(hi, 1 / uy, ny, ph)); }); }
        else if (l.op == "sc")
        {
            auto s = slice();
            long lo = l.next(), hi = l.next();
            auto X = l.take(nx), U = l.take(nu);
            guard([&] { return (long)m->setScalarConstraint(hx::dec(lo) * us, hx::dec(hi) * us, mkv<CX>(X, ux / us, nx), mkv<CU>(U, uu / us, nu), s); });
        }
        else if (l.op == "sci")
        {
            long k = l.next(), lo = l.next(), hi = l.next();
            auto X = l.take(nx), U = l.take(nu);
            guard([&] { return (long)m->setScalarConstraint((unsigned int)k, hx::dec(lo) * us, hx::dec(hi) * us, mkv<CX>(X, ux / us, nx), mkv<CU>(U, uu / us, nu)); });
        }
        else if (l.op == "w")
        {
            auto s = slice();
            auto a = l.take(ny), b = l.take(nu), c = l.take(nu);
            guard([&] { return (long)m->setObjectiveWeights(mkv<CY>(a, uy * uy / uw, ny), mkv<CU>(b, uu * uu / uw, nu), mkv<CU>(c, uu * uu / uw, nu), s); });
        }
        else if (l.op == "wm")
        {
            auto a = l.take(ny * ph), b = l.take(nu * ph), c = l.take(nu * ph);
            using MY = mpc::mat<NY, PH>; using MU = mpc::mat<NU, PH>;
            guard([&] { return (long)m->setObjectiveWeights(mkm<MY>(a, uy * uy / uw, ny, ph), mkm<MU>(b, uu * uu / uw, nu, ph), mkm<MU>(c, uu * uu / uw, nu, ph)); });
        }
        else if (l.op == "ref")
        {
            auto s = slice();
            auto a = l.take(ny), b = l.take(nu), c = l.take(nu);
            guard([&] { return (long)m->setReferences(mkv<CY>(a, 1 / uy, ny), mkv<CU>(b, 1 / uu, nu), mkv<CU>(c, 1 / uu, nu), s); });
        }
        else if (l.op == "refm")
        {
            auto a = l.take(ny * ph), b = l.take(nu * ph), c = l.take(nu * ph);
            using MY = mpc::mat<NY, PH>; using MU = mpc::mat<NU, PH>;
            guard([&] { return (long)m->setReferences(mkm<MY>(a, 1 / uy, ny, ph), mkm<MU>(b, 1 / uu, nu, ph), mkm<MU>(c, 1 / uu, nu, ph)); });
        }
        else if (l.op == "ext") { auto s = slice(); auto a = l.take(ndu); guard([&] { return (long)m->setExogenousInputs(mkv<CD>(a, 1 / ud, ndu), s); }); }
        else if (l.op == "extm") { auto a = l.take(ndu * ph); using MM = mpc::mat<NDU, PH>; guard([&] { return (long)m->setExogenousInputs(mkm<MM>(a, 1 / ud, ndu, ph)); }); }
        else if (l.op == "model")
        {
            auto a = l.take(nx * nx), b = l.take(nx * nu), c = l.take(ny * nx);
            using MA = mpc::mat<NX, NX>; using MB = mpc::mat<NX, NU>; using MC = mpc::mat<NY, NX>;
            guard([&] { return (long)m->setStateSpaceModel(mkm<MA>(a, 1, nx, nx), mkm<MB>(b, uu / ux, nx, nu), mkm<MC>(c, ux / uy, ny, nx)); });
        }
        else if (l.op == "dist")
        {
            auto a = l.take(nx * ndu), b = l.take(ny * ndu);
            using MB = mpc::mat<NX, NDU>; using MD = mpc::mat<NY, NDU>;
            guard([&] { return (long)m->setDisturbances(mkm<MB>(a, ud / ux, nx, ndu), mkm<MD>(b, ud / uy, ny, ndu)); });
        }
        else if (l.op == "par")
        {
            mpc::LParameters p;
            p.alpha = l.next() / 1000.0;
            p.rho = l.next() / 1000.0;
            p.eps_rel = l.next() / 1000.0;
            p.eps_abs = l.next() / 1000.0;
            p.eps_prim_inf = l.next() / 1000.0;
            p.eps_dual_inf = l.next() / 1000.0;
            p.verbose = l.next() != 0;
            p.adaptive_rho = l.next() != 0;
            p.polish = l.next() != 0;
            p.maximum_iteration = (int)l.next();
            p.time_limit = l.next() / 8.0;
            p.enable_warm_start = l.next() != 0;
            guard([&] { m->setOptimizerParameters(p); return 1L; });
        }
        else if (l.op == "ws")
        {
            long s = l.next(), t = l.next();
            const long nx_ = (ph + 1) * (nx + nu) + ph * nu, m_ = (ph + 1) * (nx + nu) * 2 + (ph + 1) * ny + ph * nu + ph + 1;
            const auto uz = unitsZ();
            std::vector<double> x, y;
            if (s > 0) for (long k = 1; k <= nx_; k++) x.push_back((double)Z(s, k) * uz[k - 1]);
            if (t > 0) for (long k = 1; k <= m_; k++) y.push_back((double)Z(t, k));
            guard([&] { m->setSolverWarmStart(x, y); return 1L; });
        }
        else if (l.op == "unsup")
        {
            // calls the linear controller does not support: they say so, and change nothing
            long k = l.next();
            guard([&] {
                if (k == 0) m->setStateScale(mkv<CX>(std::vector<long>(nx, 2), 1, nx));
                else if (k == 1) m->setInputScale(mkv<CU>(std::vector<long>(nu, 2), 1, nu));
                else m->setDiscretizationSamplingTime(0.5);
                return 1L;
            });
        }
        else if (l.op == "opt")
        {
            auto x0 = l.take(nx), u0 = l.take(nu);
            Play p;
            p.mode = l.next(); p.status = l.next(); p.obj = l.next(); p.seed = l.next(); p.advMs = l.next();
            p.uz = unitsZ();
            p.uw = uw;
            gPlay = &p;
            Ev o;
            o.str("op", "opt").i("i", id).v("x0", x0).v("u0", u0).v("pl", {p.mode, p.status, p.obj, p.seed, p.advMs});
            long thrown = 0;
            mpc::Result<NU> rr;
            try { rr = m->optimize(mkv<CX>(x0, 1 / ux, nx), mkv<CU>(u0, 1 / uu, nu)); }
            catch (const std::exception &) { thrown = 1; }
            catch (...) { thrown = 2; }
            gPlay = nullptr;
            o.i("thrown", thrown).i("nset", p.nset).i("nok", p.nok).i("refused", p.refused).i("nsolve", p.nsolve).i("nwarm", p.nwarm).i("wf", p.wf);
            o.i("live", gLive).i("bad", gBad).i("mem", gAlloc);
            gBad = 0;
            o.i("nv", p.n).i("nr", p.m).raw("par", p.par.empty() ? "[]" : p.par).raw("P", p.P.empty() ? "[]" : p.P).raw("q", p.q.empty() ? "[]" : p.q);
            o.raw("rows", p.rows.empty() ? "[]" : p.rows).raw("wx", p.wx).raw("wy", p.wy);
            o.raw("res", resStr(rr)).raw("last", resStr(m->getLastResult())).raw("seq", seqStr());
            wsOut(o);
            hx::emit(o);
            return;
        }
        else if (l.op == "last")
        {
            e.raw("res", resStr(m->getLastResult())).raw("seq", seqStr());
            wsOut(e);
        }
        else if (l.op == "stats")
        {
            const auto &s = m->getExecutionStats();
            if (gPy) { pyStats(e, s); e.i("r", r); hx::emit(e); return; }
            e.i("num", s.numberOfSolutions);
            e.raw("tot", num(s.totalSolutionTime.count(), 1e9 / hx::tick(), 1e-3));
            std::vector<long> st(5, 0);
            for (auto &kv : s.solutionsStates) if ((int)kv.first >= 0 && (int)kv.first < 5) st[(int)kv.first] += kv.second;
            e.v("st", st);
        }
        else if (l.op == "reset") m->resetStats();
        else if (l.op == "llev" || l.op == "lpre") logOp(*m, l, e);
        else if (l.op == "clk") hx::clockNs() += l.next() * hx::tick();
        else { std::fprintf(stderr, "unknown op %s\n", l.op.c_str()); std::exit(77); }
        e.i("r", r);
        hx::emit(e);
    }
    void wsOut(Ev &o)
    {
        auto x = m->getSolverWarmStartPrimal(), y = m->getSolverWarmStartDual();
        const auto uz = unitsZ();
        o.raw("gx", nums(x.size(), [&](size_t k) { return k < uz.size() ? x[k] / uz[k] : x[k]; }, 1)).raw("gy", nums(y.size(), [&](size_t k) { return y[k]; }, 1));
    }
    // [status, solver code, cost, feasible, command length, command...]
    std::string resStr(const mpc::Result<NU> &r)
    {
        std::string s = "[" + std::to_string((long)r.status) + "," + std::to_string(r.solver_status) + "," + num(r.cost, 1) + "," + std::to_string((long)r.is_feasible);
        for (int k = 0; k < r.cmd.size(); k++) s += "," + num(r.cmd(k), 1 / uu);
        return s + "]";
    }
    std::string seqStr()
    {
        auto q = m->getOptimalSequence();
        Ev s;
        auto put = [&](const char *k, const auto &A, double mult) {
            std::vector<std::string> rows;
            for (int a = 0; a < A.rows(); a++) rows.push_back(nums(A.cols(), [&](size_t b) { return A(a, (int)b); }, mult));
            s.raw(k, Ev::list(rows));
        };
        put("x", q.state, 1 / ux);
        put("u", q.input, 1 / uu);
        put("y", q.output, 1 / uy);
        return s.end();
    }
};
