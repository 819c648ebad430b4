#pragma once
#include <cstddef>
#include <cstdint>
#include <unordered_map>

namespace vp {

struct GcControl {
    bool enabled = false;
    bool fill = true;   // overwrite taken/freed cells with a pattern
    int mode = 0;       // 0 none, 1 every n, 2 random 1/n, 3 once at n
    uint64_t n = 0;
    uint64_t count = 0;
    uint64_t rng = 88172645463325252ull;
};

/// Makes allocations fail: the at-th one (counted from the last reset) or any one with probability 1/rate.
struct FaultControl {
    uint64_t at = 0;
    uint64_t rate = 0;
    uint64_t count = 0;
    uint64_t rng = 88172645463325252ull;
    [[noreturn]] void hit();
};

struct HeapState {
    std::unordered_map<void*, std::size_t> blocks;
    std::size_t total = 0;
    std::size_t peak = 0;
};

struct HeapMonitor {
    uint64_t allocs = 0;
    uint64_t gcs = 0;
    uint64_t free_ranges = 0;
    uint64_t live_objects = 0;
    uint64_t live_bytes = 0;
    uint64_t faults = 0;
    uint64_t over_limit = 0;
    uint64_t over_by = 0;
    uint64_t bad_free_size = 0;
    std::size_t peak = 0;
    std::unordered_map<void*, HeapState> heaps;

    std::size_t held() const {
        std::size_t r = 0;
        for (auto& h : heaps)
            r += h.second.total;
        return r;
    }
};

extern thread_local GcControl gc;
extern thread_local HeapMonitor mon;
extern thread_local FaultControl fault;

} // namespace vp
