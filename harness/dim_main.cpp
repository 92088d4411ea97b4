// Dimension arithmetic driver.  usage: dim_driver SCRIPT TRACE
#include "hx.hpp"
#include <mpc/Dim.hpp>
#include <fstream>
#include <utility>
using mpc::Size;

static void put(const char *o, std::vector<long> a, long r)
{
    hx::Ev e;
    e.str("op", o).i("i", 0).v("a", a).i("r", r);
    hx::emit(e);
}
// in constant expressions, as the library uses them
template <int A, int B> struct C
{
    static constexpr Size a{A}, b{B};
    template <int K, int V> struct Sz { static constexpr int kind = K, v = V; };
    static void go()
    {
        constexpr int r[3][3] = {{a + b, a - b, a * b}, {a + B, a - B, a * B}, {A + b, A - b, A * b}};
        for (int k = 0; k < 3; k++) for (int o = 0; o < 3; o++) put("const", {k, o + 1, A, B}, r[k][o]);
        constexpr mpc::MPCSize s(A, B, 0, 1, B, A, 2, 3);
        constexpr int n = s.ph * s.nx + s.nu * s.ch + 1;
        put("nz", {s.ph, s.nx, s.ch, s.nu}, n);
        put("nz", {B, A, A, B}, n);
    }
};
template <int A, int... B> static void row(std::integer_sequence<int, B...>) { (C<A - 1, B - 1>::go(), ...); }
template <int... A> static void all(std::integer_sequence<int, A...> s) { (row<A>(s), ...); }

int main(int argc, char **argv)
{
    if (argc < 3) return 77;
    std::ifstream in(argv[1]);
    hx::out() = std::fopen(argv[2], "w");
    all(std::make_integer_sequence<int, 9>());
    hx::Line l;
    while (hx::readLine(in, l))
    {
        long k = l.next(), o = l.next();
        int a = (int)l.next(), b = (int)l.next();
        Size x(a), y(b);
        int r = 0;
        if (k == 0) r = o == 1 ? x + y : o == 2 ? x - y : x * y;
        if (k == 1) r = o == 1 ? x + b : o == 2 ? x - b : x * b;
        if (k == 2) r = o == 1 ? a + y : o == 2 ? a - y : a * y;
        if ((int)x != a || (int)y != b) r = -4242;
        put("dim", {k, o, a, b}, r);
    }
    hx::Ev e;
    e.str("op", "end").i("i", 0);
    hx::emit(e);
    return 0;
}
