// Virtual time: replaces the std::chrono clocks of this executable.
#include "h.hpp"
namespace h { long long steady_ns = 0; long long system_ns = 0; }
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(h::steady_ns)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(h::system_ns)); }
}}}
