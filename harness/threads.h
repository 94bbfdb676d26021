// Deterministic scheduler for real threads: exactly one runs at a time, and which one is decided at
// every basic-block edge of the code under test, and at each of its accesses to variables of static storage duration.
#pragma once
#include <cstdint>
#include <functional>
#include <vector>

namespace sched {
struct Result {
    std::uint64_t switches = 0;
    std::uint64_t interleaving = 0; // hash of (thread, its step) at every switch
    std::uint64_t accesses = 0;     // to memory several threads can reach
};
// Runs the functions as threads until all have ended. granularity: mean number of edges between switches; the first
// switch comes after about as many edges as given, and after so many switches each thread runs to its end.
Result runAll(const std::vector<std::function<void()>> &threads, std::uint32_t granularity, std::uint32_t first, std::uint32_t maxSwitches);
bool active();
} // namespace sched
