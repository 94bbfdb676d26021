// Simulated allocator: operator new/delete of the code under test are served from arenas at fixed
// addresses, under a policy the simulator chooses, with injected failures and full poisoning.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim {
namespace alloc {

enum Region : int { Default = 0, Low = 1, Mid = 2, RegionCount = 3 };
enum Reuse : int { Never = 0, Lifo = 1, Fifo = 2 };

struct Policy {
    int region = Default;
    int reuse = Never;
    std::uint32_t gapSeed = 0;      // 0: no gaps, otherwise pseudo-random gaps between blocks
    std::uint64_t capBytes = 256u << 20; // live bytes allowed
    std::int64_t failAt = -1;       // index of the allocation to fail (counted since reset/arm), -1: none
    bool failPersistent = false;    // all allocations from failAt on
};
void setup();
// frees everything, unpoisons and starts with the given policy
void reset(const Policy &p);
void restart(const Policy &p); // the same between two lives within a run: what is still in use stays in use
void rebase(const Policy &p); // the same, but blocks in use stay in use (and do not count any more)
void setPolicy(const Policy &p);
Policy policy();
void arm(std::int64_t failAt, bool persistent); // restarts the allocation counter
void disarm();
std::uint64_t counter();      // allocations since arm()
std::uint64_t liveBlocks();   // blocks of the code under test alive now
std::uint64_t liveBytes();
std::uint64_t peakBytes();
std::uint64_t failuresInjected();
std::uint64_t capFailures();
bool owns(const void *p);
extern thread_local int t_domain; // 0: harness, 1: code under test
std::int64_t mallocBalance();   // malloc blocks (RapidJSON) taken by the code under test and not returned
void resetMallocBalance();

// No injected failure within: code of the C++ utilities library that ends the process when it cannot allocate the text of an exception.
struct NoFail {
    NoFail();
    ~NoFail();
};

// Code inside a Sut scope allocates from the arena, code inside a Harness scope from the real heap.
struct Sut {
    int prev;
    bool prevCount;
    Sut();
    ~Sut();
};
struct Harness {
    int prev;
    bool prevCount;
    Harness();
    ~Harness();
};

} // namespace alloc
using alloc::Sut;
using alloc::Harness;
} // namespace sim
