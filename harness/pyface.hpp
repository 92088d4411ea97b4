// The controllers as seen through the Python bindings: the same interface, every call made by name on what the binding
// source registered (see pystub), every result read back by name.
#pragma once
#include "hx.hpp"
#include <pybind11/pybind11.h>
#include <mpc/LMPC.hpp>
#include <mpc/NLMPC.hpp>

namespace pyx
{
    namespace py = pybind11;
    using py::Val;
    using V = Eigen::VectorXd;
    using Mx = Eigen::MatrixXd;

    inline void load()
    {
        static bool done = false;
        if (!done) { done = true; for (auto &f : py::modules()) f(); }
    }
    // the same value in the forms Python code would use, in turn
    inline unsigned &turn() { static unsigned t = 0; return t; }
    inline Val num(double v)
    {
        if (std::isfinite(v) && std::fabs(v) < 1e9 && v == std::floor(v) && ++turn() % 2) return Val::integer((long long)v);
        return Val::real(v);
    }
    inline Val arr(const V &v)
    {
        Val r = py::detail::fromEigen(v);
        if (v.size() > 0 && ++turn() % 5 == 0)
        {
            r = Val();
            r.k = Val::List;
            for (int k = 0; k < v.size(); k++) r.list.push_back(Val::real(v(k)));
        }
        return r;
    }
    inline Val arr(const Mx &m) { return py::detail::fromEigen(m); }
    inline Val integer(long k) { return Val::integer(k); }
    inline Val seq(const std::vector<double> &v)
    {
        Val r;
        r.k = Val::List;
        for (double d : v) r.list.push_back(Val::real(d));
        return r;
    }
    inline Val slice(const mpc::HorizonSlice &s)
    {
        if (s.start == -1 && s.end == -1) return py::callstatic("HorizonSlice", "all");
        return py::construct("HorizonSlice", {integer(s.start), integer(s.end)});
    }
    inline bool truth(const Val &v)
    {
        if (v.k != Val::Bool) throw py::PyError("TypeError", "not a bool");
        return v.i != 0;
    }
    // attributes: what is not there shows as a value nothing else takes
    template <class F> auto got(F f, decltype(f()) none) -> decltype(f())
    {
        try { return f(); }
        catch (const py::PyError &) { return none; }
    }
    inline double real(const Val &o, const char *n)
    {
        return got([&] { Val v = o.attr(n); if (v.k != Val::Float && v.k != Val::Int) throw py::PyError("TypeError", n); return v.k == Val::Int ? (double)v.i : v.f; }, -77777.5);
    }
    inline long whole(const Val &o, const char *n)
    {
        return got([&] { Val v = o.attr(n); if (v.k != Val::Int && v.k != Val::Bool) throw py::PyError("TypeError", n); return (long)v.i; }, -77777L);
    }
    inline Mx array(const Val &o, const char *n, int dims)
    {
        return got([&]() -> Mx {
            Val v = o.attr(n);
            if (v.k != Val::Array || v.a->dims != dims) throw py::PyError("TypeError", n);
            Mx m(v.a->r, v.a->c);
            for (long i = 0; i < v.a->r; i++) for (long j = 0; j < v.a->c; j++) m(i, j) = v.a->at(i, j);
            return m; }, Mx::Constant(9, 9, -77777.5));
    }
    inline std::chrono::duration<double> span(const Val &o, const char *n)
    {
        return got([&] { Val v = o.attr(n); if (v.k != Val::Delta) throw py::PyError("TypeError", n); return std::chrono::duration<double>((double)v.i * 1e-6); }, std::chrono::duration<double>(-77777.5));
    }
    inline long status(const Val &v)
    {
        static const std::map<std::string, long> m = {{"SUCCESS", (long)mpc::SUCCESS}, {"MAX_ITERATION", (long)mpc::MAX_ITERATION}, {"INFEASIBLE", (long)mpc::INFEASIBLE}, {"ERROR", (long)mpc::ERROR}, {"UNKNOWN", (long)mpc::UNKNOWN}};
        auto q = m.find(py::enumName<mpc::ResultStatus>(v));
        return q == m.end() ? -77777L : q->second;
    }
    inline mpc::Result<> result(const Val &o)
    {
        mpc::Result<> r;
        r.solver_status = (int)whole(o, "solver_status");
        r.is_feasible = false;
        const long f = whole(o, "is_feasible");
        r.solver_status_msg = got([&] { return o.attr("solver_status_msg").s; }, std::string());
        r.cost = real(o, "cost");
        r.status = (mpc::ResultStatus)got([&] { return status(o.attr("status")); }, -77777L);
        Mx c = array(o, "cmd", 1);
        r.cmd = Eigen::Map<V>(c.data(), c.size());
        if (f != 0 && f != 1) r.cost = -77777.25;       // no such attribute
        else r.is_feasible = f == 1;
        return r;
    }
    inline mpc::OptSequence<> sequence(const Val &o)
    {
        mpc::OptSequence<> s;
        s.state = array(o, "state", 2);
        s.input = array(o, "input", 2);
        s.output = array(o, "output", 2);
        return s;
    }
    inline mpc::SolutionStats stats(const Val &o)
    {
        mpc::SolutionStats s;
        s.numberOfSolutions = (decltype(s.numberOfSolutions))whole(o, "numberOfSolutions");
        s.minSolutionTime = span(o, "minSolutionTime");
        s.maxSolutionTime = span(o, "maxSolutionTime");
        s.averageSolutionTime = span(o, "averageSolutionTime");
        s.totalSolutionTime = span(o, "totalSolutionTime");
        s.standardDeviation = real(o, "standardDeviation");
        try
        {
            for (auto &q : o.attr("solutionsStates").dict) s.solutionsStates[(mpc::ResultStatus)status(q.first)] = (int)q.second.i;
        }
        catch (const py::PyError &) { s.numberOfSolutions = -77777; }
        return s;
    }
    // a Python exception raised in a user function
    template <class F> Val raising(F f)
    {
        try { return f(); }
        catch (...) { throw py::error_already_set("raised in Python"); }
    }
    inline V vecOf(const Val &v)
    {
        if (v.k != Val::Array || v.a->dims != 1) throw py::error_already_set("not a vector");
        V r(v.a->r);
        for (long k = 0; k < r.size(); k++) r(k) = v.a->d[k];
        return r;
    }
    inline Mx matOf(const Val &v)
    {
        if (v.k != Val::Array || v.a->dims != 2) throw py::error_already_set("not a matrix");
        Mx m(v.a->r, v.a->c);
        for (long i = 0; i < v.a->r; i++) for (long j = 0; j < v.a->c; j++) m(i, j) = v.a->at(i, j);
        return m;
    }
    inline Val callable(std::function<Val(const py::Args &)> f)
    {
        Val v;
        v.k = Val::Func;
        v.fn = [f](py::Args a) { return f(a); };
        return v;
    }
    inline void want(const py::Args &a, size_t n) { if (a.size() != n) throw py::error_already_set("wrong number of arguments"); }

    struct Front
    {
        Val self;
        bool flag(const char *n, const py::Args &a, const py::Kw &kw = {}) { return truth(self.call(n, a, kw)); }
        bool setLoggerLevel(mpc::Logger::log_level l)
        {
            static const std::map<mpc::Logger::log_level, const char *> m = {{mpc::Logger::log_level::DEEP, "DEEP"}, {mpc::Logger::log_level::NORMAL, "NORMAL"}, {mpc::Logger::log_level::ALERT, "ALERT"}, {mpc::Logger::log_level::NONE, "NONE"}};
            return flag("setLoggerLevel", {py::constant("LoggerLevel", m.at(l))});
        }
        bool setLoggerPrefix(const std::string &s) { return flag("setLoggerPrefix", {Val::str(s)}); }
        mpc::Result<> optimize(const V &x, const V &u) { return result(self.call("optimize", {arr(x), arr(u)})); }
        mpc::Result<> getLastResult() { return got([&] { return result(self.call("getLastResult")); }, mpc::Result<>()); }
        mpc::OptSequence<> getOptimalSequence()
        {
            return got([&] { return sequence(self.call("getOptimalSequence")); }, [] { mpc::OptSequence<> s; s.state = s.input = s.output = Mx::Constant(9, 9, -77777.5); return s; }());
        }
        mpc::SolutionStats getExecutionStats() { return stats(self.call("getExecutionStats")); }
        void resetStats() { self.call("resetStats"); }
        bool setStateBounds(const Mx &a, const Mx &b) { return flag("setStateBounds", {arr(a), arr(b)}); }
        bool setInputBounds(const Mx &a, const Mx &b) { return flag("setInputBounds", {arr(a), arr(b)}); }
        bool setOutputBounds(const Mx &a, const Mx &b) { return flag("setOutputBounds", {arr(a), arr(b)}); }
        bool setStateBounds(const V &a, const V &b, const mpc::HorizonSlice &s) { return flag("setStateBounds", {arr(a), arr(b), slice(s)}); }
        bool setInputBounds(const V &a, const V &b, const mpc::HorizonSlice &s) { return flag("setInputBounds", {arr(a), arr(b), slice(s)}); }
        bool setOutputBounds(const V &a, const V &b, const mpc::HorizonSlice &s) { return flag("setOutputBounds", {arr(a), arr(b), slice(s)}); }
        bool setDiscretizationSamplingTime(double t) { return flag("setDiscretizationSamplingTime", {num(t)}); }
        void setStateScale(const V &v) { self.call("setStateScale", {arr(v)}); }
        void setInputScale(const V &v) { self.call("setInputScale", {arr(v)}); }
    };

    struct NL : Front
    {
        NL() {}
        NL(int nx, int nu, int ny, int ph, int ch, int ni, int ne)
        {
            load();
            self = py::construct("NLMPC", {integer(nx), integer(nu), integer(ny), integer(ph), integer(ch), integer(ni), integer(ne)});
            this->nx = nx; this->ny = ny; this->ni = ni; this->ne = ne;
        }
        int nx, ny, ni, ne;
        void setOptimizerParameters(const mpc::NLParameters &p)
        {
            Val v = py::construct("NLParameters");
            v.setattr("maximum_iteration", integer(p.maximum_iteration));
            v.setattr("time_limit", num(p.time_limit));
            v.setattr("enable_warm_start", Val::boolean(p.enable_warm_start));
            v.setattr("relative_ftol", num(p.relative_ftol));
            v.setattr("relative_xtol", num(p.relative_xtol));
            v.setattr("absolute_ftol", num(p.absolute_ftol));
            v.setattr("absolute_xtol", num(p.absolute_xtol));
            v.setattr("hard_constraints", Val::boolean(p.hard_constraints));
            self.call("setOptimizerParameters", {v});
        }
        template <class F> bool setObjectiveFunction(const F &f)
        {
            return flag("setObjectiveFunction", {callable([f](const py::Args &a) { return raising([&] { want(a, 4); return Val::real(f(matOf(a[0]), matOf(a[1]), matOf(a[2]), a[3].f)); }); })});
        }
        template <class F> Val stepper(const F &f, int n)
        {
            return callable([f, n](const py::Args &a) { return raising([&] { want(a, 3); V r = V::Zero(n); f(r, vecOf(a[0]), vecOf(a[1]), (unsigned)a[2].i); return py::detail::fromEigen(r); }); });
        }
        template <class F> bool setStateSpaceFunction(const F &f) { return flag("setStateSpaceFunction", {stepper(f, nx)}); }
        template <class F> bool setStateSpaceFunction(const F &f, float tol) { return flag("setStateSpaceFunction", {stepper(f, nx), num(tol)}); }
        bool setOutputFunction(std::nullptr_t) { return flag("setOutputFunction", {Val::none()}); }
        template <class F> bool setOutputFunction(const F &f) { return flag("setOutputFunction", {stepper(f, ny)}); }
        template <class F> Val ineq(const F &f)
        {
            return callable([f, n = ni](const py::Args &a) { return raising([&] { want(a, 4); V r = V::Zero(n); f(r, matOf(a[0]), matOf(a[1]), matOf(a[2]), a[3].f); return py::detail::fromEigen(r); }); });
        }
        template <class F> Val eq(const F &f)
        {
            return callable([f, n = ne](const py::Args &a) { return raising([&] { want(a, 2); V r = V::Zero(n); f(r, matOf(a[0]), matOf(a[1])); return py::detail::fromEigen(r); }); });
        }
        template <class F> bool setIneqConFunction(const F &f) { return flag("setIneqConFunction", {ineq(f)}); }
        template <class F> bool setIneqConFunction(const F &f, float tol) { return flag("setIneqConFunction", {ineq(f), num(tol)}); }
        template <class F> bool setEqConFunction(const F &f) { return flag("setEqConFunction", {eq(f)}); }
        template <class F> bool setEqConFunction(const F &f, float tol) { return flag("setEqConFunction", {eq(f), num(tol)}); }
    };

    struct LM : Front
    {
        LM() {}
        LM(int nx, int nu, int ndu, int ny, int ph, int ch)
        {
            load();
            self = py::construct("LMPC", {integer(nx), integer(nu), integer(ndu), integer(ny), integer(ph), integer(ch)});
        }
        void setOptimizerParameters(const mpc::LParameters &p)
        {
            Val v = py::construct("LParameters");
            v.setattr("maximum_iteration", integer(p.maximum_iteration));
            v.setattr("time_limit", num(p.time_limit));
            v.setattr("enable_warm_start", Val::boolean(p.enable_warm_start));
            v.setattr("alpha", num(p.alpha));
            v.setattr("rho", num(p.rho));
            v.setattr("eps_rel", num(p.eps_rel));
            v.setattr("eps_abs", num(p.eps_abs));
            v.setattr("eps_prim_inf", num(p.eps_prim_inf));
            v.setattr("eps_dual_inf", num(p.eps_dual_inf));
            v.setattr("verbose", Val::boolean(p.verbose));
            v.setattr("adaptive_rho", Val::boolean(p.adaptive_rho));
            v.setattr("polish", Val::boolean(p.polish));
            self.call("setOptimizerParameters", {v});
        }
        bool setScalarConstraint(double lo, double hi, const V &x, const V &u, const mpc::HorizonSlice &s) { return flag("setScalarConstraint", {num(lo), num(hi), arr(x), arr(u), slice(s)}); }
        bool setScalarConstraint(unsigned k, double lo, double hi, const V &x, const V &u) { return flag("setScalarConstraint", {integer(k), num(lo), num(hi), arr(x), arr(u)}); }
        bool setObjectiveWeights(const V &a, const V &b, const V &c, const mpc::HorizonSlice &s) { return flag("setObjectiveWeights", {arr(a), arr(b), arr(c), slice(s)}); }
        bool setObjectiveWeights(const Mx &a, const Mx &b, const Mx &c) { return flag("setObjectiveWeights", {arr(a), arr(b), arr(c)}); }
        bool setReferences(const V &a, const V &b, const V &c, const mpc::HorizonSlice &s) { return flag("setReferences", {arr(a), arr(b), arr(c), slice(s)}); }
        bool setReferences(const Mx &a, const Mx &b, const Mx &c) { return flag("setReferences", {arr(a), arr(b), arr(c)}); }
        bool setExogenousInputs(const V &a, const mpc::HorizonSlice &s) { return flag("setExogenousInputs", {arr(a), slice(s)}); }
        bool setExogenousInputs(const Mx &a) { return flag("setExogenousInputs", {arr(a)}); }
        bool setStateSpaceModel(const Mx &a, const Mx &b, const Mx &c) { return flag("setStateSpaceModel", {arr(a), arr(b), arr(c)}); }
        bool setDisturbances(const Mx &a, const Mx &b) { return flag("setDisturbances", {arr(a), arr(b)}); }
        std::vector<double> list(const char *n)
        {
            Val v = self.call(n);
            std::vector<double> r;
            for (auto &q : v.list) r.push_back(q.f);
            return r;
        }
        std::vector<double> getSolverWarmStartPrimal() { return list("getSolverWarmStartPrimal"); }
        std::vector<double> getSolverWarmStartDual() { return list("getSolverWarmStartDual"); }
        void setSolverWarmStart(const std::vector<double> &a, const std::vector<double> &b) { self.call("setSolverWarmStart", {seq(a), seq(b)}); }
    };
}
