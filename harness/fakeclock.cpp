// Interposes the libstdc++ clocks: time moves only when the driver says so.
#include "hx.hpp"
#include <chrono>
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept
{ return time_point(duration(std::chrono::nanoseconds(hx::clockNs()))); }
steady_clock::time_point steady_clock::now() noexcept
{ return time_point(duration(std::chrono::nanoseconds(hx::clockNs()))); }
}}}
