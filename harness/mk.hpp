// Eigen vectors and matrices from script integers
#pragma once
#include "hx.hpp"
#include <mpc/Types.hpp>
#include <mpc/Logger.hpp>
#include <sstream>
template <class V> V mkv(const std::vector<long> &a, double div, int n)
{
    V v;
    if constexpr (V::RowsAtCompileTime == Eigen::Dynamic) v.resize(n);
    for (int k = 0; k < n; k++) v(k) = hx::dec(a[k]) / div;
    return v;
}
// a is column after column (one column per horizon step)
template <class M> M mkm(const std::vector<long> &a, double div, int r, int c)
{
    M m;
    if constexpr (M::RowsAtCompileTime == Eigen::Dynamic) m.resize(r, c);
    for (int j = 0; j < c; j++)
        for (int k = 0; k < r; k++) m(k, j) = hx::dec(a[j * r + k]) / div;
    return m;
}


// the statistics in whole microseconds (compared up to one, which is what Python shows)
template <class E, class S> void pyStats(E &e, const S &s)
{
    auto us = [](double t) { return std::fabs(t) < 1e3 ? (long)std::floor(t * 1e6) : -1L; };
    e.i("num", s.numberOfSolutions).str("std", hx::bits(s.standardDeviation));
    e.v("us", {us(s.totalSolutionTime.count()), us(s.averageSolutionTime.count()), us(s.minSolutionTime.count()), us(s.maxSolutionTime.count())});
    std::vector<long> st(5, 0);
    for (auto &kv : s.solutionsStates) if ((int)kv.first >= 0 && (int)kv.first < 5) st[(int)kv.first] += kv.second;
    e.v("st", st);
}
// a controller's logger setters, and what the logger then writes
template <class M, class E> void logOp(M &m, hx::Line &l, E &e)
{
    static const mpc::Logger::log_level L[] = {mpc::Logger::log_level::DEEP, mpc::Logger::log_level::NORMAL, mpc::Logger::log_level::ALERT, mpc::Logger::log_level::NONE};
    long k = l.next(), ok = -1;
    try { ok = l.op == "llev" ? m.setLoggerLevel(L[k % 4]) : m.setLoggerPrefix(k % 2 ? "ab " + std::to_string(k) : std::string()); }
    catch (const std::exception &) {}
    std::ostringstream os;
    auto &g = mpc::Logger::instance();
    auto *old = std::cout.rdbuf(os.rdbuf());
    g.log(mpc::Logger::log_type::DETAIL) << "d" << std::endl;
    g.log(mpc::Logger::log_type::INFO) << "i" << std::endl;
    g.log(mpc::Logger::log_type::ERROR) << "e" << std::endl;
    std::cout.rdbuf(old);
    e.i("ok", ok).str("txt", os.str());
}
