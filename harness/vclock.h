// Virtual time for the code under test: every look at a C++ clock costs one virtual second, so
// that "how much refinement fits into the time limit" is a function of the input, not of the load
// of the machine.  Include in exactly one translation unit of a harness.
#pragma once
#include <chrono>
#include <ctime>
#include "mon.h"
namespace vclock {   // one clock per thread: no hidden synchronisation
inline long& ticks() { static thread_local long t = 0; return t; }
}
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
    return time_point(duration_cast<duration>(seconds(1000000 + ++vclock::ticks())));
}
steady_clock::time_point steady_clock::now() noexcept {
    return time_point(duration_cast<duration>(seconds(1000000 + ++vclock::ticks())));
}
}}}
extern "C" time_t time(time_t* t) noexcept {
    const time_t v = mon::epoch();
    if (t) *t = v;
    return v;
}
