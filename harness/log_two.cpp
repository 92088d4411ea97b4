#include <mpc/Logger.hpp>
#include <Eigen/Core>
#include <cstdlib>
using mpc::Logger;
void open2(long t) { Logger::instance().log((Logger::log_type)t); }
void part2(long k)
{
    Logger &l = Logger::instance();
    switch (k)
    {
    case 1: l << "hello"; break;
    case 2: l << "two" << " words"; break;
    case 3: l << 42ul; break;
    case 4: l << -7; break;
    case 5: l << 2.5f; break;
    case 6: l << "c"; break;
    case 7: l << '\n'; break;
    case 8: l << std::string(); break;
    case 9: l << 1 << ' ' << 2 << ' ' << 3; break;
    case 10: l << 4000000000ll; break;
    case 11: l << 1; break;
    case 12: l << std::string("  indented "); break;
    default: std::exit(77);
    }
}
