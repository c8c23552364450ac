// Interface between a harness and the symbolic executor (or the native replay runtime).
#pragma once
#include <cstddef>
#include <cstdint>

extern "C"
{
    void zs_bytes(void* p, size_t n, const char* name); // n unconstrained bytes
    uint64_t zs_u64(const char* name);
    uint32_t zs_u32(const char* name);
    uint16_t zs_u16(const char* name);
    uint8_t zs_u8(const char* name);
    bool zs_bool(const char* name);
    uint64_t zs_choose(uint64_t lo, uint64_t hi, const char* name); // case split, concrete on each path
    void zs_assume(bool c);
    void zs_assert(bool c, const char* msg);
    void zs_reach(const char* label); // reachability witness
    void zs_stop(void);               // end of this path
    uint64_t zs_param(const char* name);
    uint64_t zs_concretize(uint64_t v); // exhaustive case split over the feasible values
    uint64_t zs_heap_live(void);        // number of live heap blocks
    void zs_alloc_limit(uint64_t bytes, bool isViolation);
    void zs_out(uint64_t v); // trace value, used to compare engine and native runs
    int zs_native(void);     // 1 in a native replay
}
