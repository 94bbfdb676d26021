// Simulation of whole lives of the code generator.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace gensim {

struct Memory {
    std::uint8_t direction = 0; // 0: addresses grow, 1: addresses shrink, 2: both
    std::uint8_t reuse = 1;     // 0: never, 1: last freed first, 2: first freed first
    std::uint8_t fill = 0;      // content of fresh memory
    bool gaps = false;
    std::uint32_t offset = 0;
    std::uint64_t seed = 0;
};
void startLife(const Memory &m);

// Calls the simulator answers, on the files of the scratch directory and on standard output.
enum Kind : std::uint8_t {
    OpenIn, Stat, Fstat, Read, Map, CloseIn, OpenOut, Write, CloseOut, StdoutWrite, Rename, Truncate, KindCount
};
extern const char *const kindNames[KindCount];

struct Fault {
    std::uint32_t at = 0;    // index of the call
    std::uint8_t code = 0;   // which of the failures possible for the kind of the call
    bool persistent = false; // all later calls of the same kind fail alike
    bool kill = false;       // the process dies instead
    std::uint16_t arg = 0;
};
struct CallRecord {
    std::uint8_t kind;
    std::uint8_t injected; // 0: undisturbed, otherwise code of the fault + 1
};
struct Life { // shared with the process of the life
    static constexpr std::size_t cap = 8192;
    // what is to happen
    std::uint32_t faultCount;
    Fault faults[8];
    std::uint64_t splitSeed; // shorten and interrupt reads and writes at random
    std::uint32_t stdoutBuffer;
    std::int64_t clock;
    // what happened
    std::uint32_t calls;
    std::uint32_t injected;
    std::uint32_t splits;
    std::uint64_t steps, edgesHit;
    CallRecord record[cap];
};
extern Life *life; // null outside the process of a life
// to be called once in the process of a life: everything below the directory is the simulator's
void startIo(Life *l, const std::string &scratch);
void setupIo();

} // namespace gensim
