// Definitions of the observation hooks compiled into the library (TIRO_VP_HOOKS).
// All state is per thread: a heap is only ever used by one thread at a time.
#include "vphooks.hpp"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <unordered_map>

#if defined(__has_feature)
#    if __has_feature(address_sanitizer)
#        define VP_ASAN 1
#        include <sanitizer/asan_interface.h>
#    endif
#endif

namespace vp {

thread_local GcControl gc;
thread_local HeapMonitor mon;
thread_local FaultControl fault;

void FaultControl::hit() {
    ++mon.faults;
    throw std::bad_alloc();
}

static void fail(const char* what) {
    std::fprintf(stderr, "VP-MONITOR: %s\n", what);
    std::fflush(stderr);
    std::abort();
}

} // namespace vp

using namespace vp;

extern "C" {

bool tiro_vp_before_alloc(void*, std::size_t) {
    ++mon.allocs;
    if (fault.at && ++fault.count == fault.at) {
        fault.hit();
    } else if (fault.rate) {
        fault.rng ^= fault.rng << 13;
        fault.rng ^= fault.rng >> 7;
        fault.rng ^= fault.rng << 17;
        if ((fault.rng >> 11) % fault.rate == 0)
            fault.hit();
    }
    if (!gc.enabled)
        return false;
    switch (gc.mode) {
    case 0:
        return false;
    case 1: // every n-th allocation
        return gc.n && ++gc.count % gc.n == 0;
    case 2: { // pseudo random, probability 1/n
        gc.rng ^= gc.rng << 13;
        gc.rng ^= gc.rng >> 7;
        gc.rng ^= gc.rng << 17;
        return gc.n && (gc.rng >> 11) % gc.n == 0;
    }
    case 3: // exactly once, at the n-th allocation
        return ++gc.count == gc.n;
    }
    return false;
}

void tiro_vp_cells_taken(void* p, std::size_t bytes) {
#ifdef VP_ASAN
    __asan_unpoison_memory_region(p, bytes);
#endif
    if (gc.fill)
        std::memset(p, 0xFD, bytes);
}

void tiro_vp_cells_freed(void* p, std::size_t bytes, std::size_t header) {
#ifdef VP_ASAN
    __asan_unpoison_memory_region(p, bytes);
#endif
    if (gc.fill)
        std::memset(p, 0xFE, bytes);
#ifdef VP_ASAN
    if (bytes > header)
        __asan_poison_memory_region(static_cast<char*>(p) + header, bytes - header);
#endif
    ++mon.free_ranges;
}

void tiro_vp_raw_alloc(void* heap, void* block, std::size_t bytes, std::size_t max) {
    auto& h = mon.heaps[heap];
    if (!h.blocks.emplace(block, bytes).second)
        fail("raw block handed out twice");
    h.total += bytes;
    if (h.total > h.peak)
        h.peak = h.total;
    if (h.total > mon.peak)
        mon.peak = h.total;
    if (h.total > max) {
        ++mon.over_limit;
        mon.over_by = h.total - max;
    }
}

void tiro_vp_raw_free(void* heap, void* block, std::size_t bytes) {
    auto& h = mon.heaps[heap];
    auto it = h.blocks.find(block);
    if (it == h.blocks.end())
        fail("raw block freed that is not held");
    if (it->second != bytes)
        ++mon.bad_free_size;
    h.total -= it->second;
    h.blocks.erase(it);
    if (h.blocks.empty())
        mon.heaps.erase(heap);
}

void tiro_vp_gc_done(void*, std::size_t objects, std::size_t bytes) {
    ++mon.gcs;
    mon.live_objects = objects;
    mon.live_bytes = bytes;
}
}
