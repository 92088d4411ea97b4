// Discretisation conformance driver.  usage: disc_driver SCRIPT TRACE [uK]
// uK: times in units of 2^K seconds, inputs in a unit of their own
#include "hx.hpp"
#include <mpc/Utils.hpp>
#include <fstream>

template <class M> static M take(hx::Line &l)
{
    M m;
    for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) m(i, j) = (double)l.next();
    return m;
}
template <class M> static std::string put(const M &m, double mult, double tol)
{
    std::vector<std::string> r;
    for (int i = 0; i < m.rows(); i++)
    {
        std::vector<long> c;
        for (int j = 0; j < m.cols(); j++) c.push_back(hx::enc(m(i, j), mult, tol));
        r.push_back(hx::Ev::arr(c));
    }
    return hx::Ev::list(r);
}
static double gT = 1, gU = 1;
template <size_t nx, size_t nu, size_t ny>
concept CanOutput = requires(mpc::mat<nx, nx> &A, mpc::mat<nx, nu> &B, mpc::mat<ny, nx> &C, mpc::mat<ny, nu> &D, double t) {
    mpc::discretization<nx, nu, ny>(A, B, C, D, t, A, B, C, D);
};
template <size_t nx, size_t nu, size_t nq> static void go(long kind, long shape, hx::Line &l)
{
    const long p = l.next(), q = l.next();
    const double Ts = (double)p / (double)q;
    const mpc::mat<nx, nx> A0 = take<mpc::mat<nx, nx>>(l), A1 = A0 * gT;
    const mpc::mat<nx, nu> B0 = take<mpc::mat<nx, nu>>(l), B1 = B0 * (gT * gU);
    mpc::mat<nx, nx> A = A1, Ad;
    mpc::mat<nx, nu> B = B1, Bd;
    Ad.setConstant(-77);
    Bd.setConstant(-77);
    hx::Ev e;
    bool kept = true, ok = true;
    auto o = [&](const char *k, const auto &m) { e.raw(k, put(m, 1e5, 1.0)); };
    // what is left of X after the terms c0 and c1 Ts, over Ts^2: small sampling times seen closely
    auto rest = [&](const char *k, const auto &m, const auto &c0, const auto &c1) { if (32 * p <= q && p > 0) e.raw(k, put(((m - c0) / Ts - c1).eval() / Ts, 1e5, 1.0)); };
    auto x = [&](const char *k, const auto &m) { e.raw(k, put(m, 1, 0)); };
    e.str("op", "disc").i("i", 0).i("kind", kind).i("p", p).i("q", q);
    if (kind == 1) mpc::discretization<nx, nu>(A, B, Ts / gT, Ad, Bd);
    else if (kind == 2)
    {
        const mpc::mat<nx, nq> E0 = take<mpc::mat<nx, nq>>(l), E1 = E0 * (gT * gU);
        mpc::mat<nx, nq> E = E1, Ed;
        Ed.setConstant(-77);
        mpc::discretization<nx, nu, nq>(A, B, E, Ts / gT, Ad, Bd, Ed);
        kept = E == E1;
        Ed /= gU;
        x("E", E0);
        o("Ed", Ed);
        rest("Er", Ed, 0 * E0, E0);
    }
    else
    {
        mpc::mat<nq, nx> C = take<mpc::mat<nq, nx>>(l), C0 = C, Cd;
        mpc::mat<nq, nu> D = take<mpc::mat<nq, nu>>(l), D0 = D, Dd;
        Cd.setConstant(-77);
        Dd.setConstant(-77);
        if constexpr (CanOutput<nx, nu, nq>) mpc::discretization<nx, nu, nq>(A, B, C, D, Ts / gT, Ad, Bd, Cd, Dd);
        else ok = false;
        kept = C == C0 && D == D0;
        x("C", C0);
        x("Cd", Cd);
        x("D", D0);
        x("Dd", Dd);
    }
    kept = kept && A == A1 && B == B1;
    Bd /= gU;
    x("A", A0);
    o("Ad", Ad);
    x("B", B0);
    o("Bd", Bd);
    rest("Ar", Ad, mpc::mat<nx, nx>::Identity(), A0);
    rest("Br", Bd, 0 * B0, B0);
    e.i("kept", kept).i("ok", ok);
    hx::emit(e);
}
int main(int argc, char **argv)
{
    if (argc < 3) return 77;
    std::ifstream in(argv[1]);
    hx::out() = std::fopen(argv[2], "w");
    if (argc > 3)
    {
        const int k = std::atoi(argv[3] + 1);
        gT = std::ldexp(1.0, k);
        gU = std::ldexp(1.0, k < 0 ? 12 : -20);
    }
    hx::Line l;
    while (hx::readLine(in, l))
    {
        long k = l.next(), s = l.next();
        switch (s)
        {
        case 1: go<1, 1, 1>(k, s, l); break;
        case 2: go<2, 1, 1>(k, s, l); break;
        case 3: go<2, 2, 1>(k, s, l); break;
        case 4: go<3, 1, 2>(k, s, l); break;
        case 5: go<3, 2, 3>(k, s, l); break;
        case 6: go<4, 2, 1>(k, s, l); break;
        case 7: go<2, 3, 2>(k, s, l); break;
        case 8: go<1, 2, 3>(k, s, l); break;
        case 9: go<2, 2, 2>(k, s, l); break;
        case 10: go<6, 2, 2>(k, s, l); break;
        default: return 77;
        }
    }
    hx::Ev e;
    e.str("op", "end").i("i", 0);
    hx::emit(e);
    return 0;
}
