// Native replay: the harness is compiled with the real compiler, the real library and AddressSanitizer and
// UndefinedBehaviorSanitizer, and takes its inputs from a file written by the symbolic executor.
//   usage: replay <entry> <input file> [name=value ...]
// Exit status: 0 property held, 40 assertion failed, 41 uncaught exception, 42 input rejected by zs_assume,
// anything else: crash or sanitizer report.
#include <sanitizer/allocator_interface.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <new>
#include <typeinfo>
#include <unistd.h>
#include <sys/resource.h>
#include "zsym.h"

static uint64_t gIn[1 << 16];
static size_t gN = 0, gPos = 0;
static struct { char name[64]; uint64_t v; } gPar[64];
static int gNPar = 0;
static uint64_t gLimit = 0;
static bool gLimitViol = false;
static FILE* gTrace = nullptr;

static uint64_t next() { return gPos < gN ? gIn[gPos++] : (++gPos, 0); }

static void mallocHook(const volatile void*, size_t n)
{
    if (gLimitViol && n > gLimit)
    {
        gLimitViol = false;
        fprintf(stderr, "REPLAY: allocation of %zu bytes exceeds the bound %llu\n", n, (unsigned long long)gLimit);
        _exit(40);
    }
}
static void freeHook(const volatile void*) {}

extern "C"
{
    void zs_bytes(void* p, size_t n, const char*)
    {
        for (size_t i = 0; i < n; ++i)
            ((uint8_t*)p)[i] = (uint8_t)next();
    }
    uint64_t zs_u64(const char*) { return next(); }
    uint32_t zs_u32(const char*) { return (uint32_t)next(); }
    uint16_t zs_u16(const char*) { return (uint16_t)next(); }
    uint8_t zs_u8(const char*) { return (uint8_t)next(); }
    bool zs_bool(const char*) { return (next() & 1) != 0; }
    uint64_t zs_choose(uint64_t lo, uint64_t hi, const char*)
    {
        uint64_t v = next();
        if (v < lo || v > hi)
            _exit(42);
        return v;
    }
    void zs_assume(bool c)
    {
        if (!c)
        {
            fprintf(stderr, "REPLAY: assumption does not hold\n");
            _exit(42);
        }
    }
    void zs_assert(bool c, const char* m)
    {
        if (!c)
        {
            fprintf(stderr, "REPLAY: assertion failed: %s\n", m);
            _exit(40);
        }
    }
    void zs_reach(const char*) {}
    void zs_stop(void) { _exit(0); }
    uint64_t zs_param(const char* n)
    {
        for (int i = 0; i < gNPar; ++i)
            if (!strcmp(gPar[i].name, n))
                return gPar[i].v;
        fprintf(stderr, "REPLAY: missing parameter %s\n", n);
        _exit(43);
    }
    uint64_t zs_concretize(uint64_t v) { return v; }
    uint64_t zs_heap_live(void) { return __sanitizer_get_current_allocated_bytes(); }
    void zs_alloc_limit(uint64_t n, bool v)
    {
        gLimit = n;
        gLimitViol = v;
    }
    void zs_out(uint64_t v)
    {
        if (gTrace)
            fprintf(gTrace, "%llu\n", (unsigned long long)v);
    }
    int zs_native(void) { return 1; }
    const char* __asan_default_options() { return "detect_leaks=0:exitcode=44:allocator_may_return_null=1:detect_stack_use_after_return=1"; }
    const char* __ubsan_default_options() { return "print_stacktrace=1"; }
}

int main(int argc, char** argv)
{
    if (argc < 3)
        return 45;
    FILE* f = fopen(argv[2], "r");
    if (!f)
        return 45;
    char line[1 << 16];
    while (fgets(line, sizeof line, f))
    {
        if (line[0] == '#')
            continue;
        for (char* t = strtok(line, " \n"); t; t = strtok(nullptr, " \n"))
            if (gN < sizeof gIn / sizeof gIn[0])
                gIn[gN++] = strtoull(t, nullptr, 0);
    }
    fclose(f);
    for (int i = 3; i < argc && gNPar < 64; ++i)
    {
        char* e = strchr(argv[i], '=');
        if (!e)
            continue;
        snprintf(gPar[gNPar].name, sizeof gPar[0].name, "%.*s", (int)(e - argv[i]), argv[i]);
        gPar[gNPar++].v = strtoull(e + 1, nullptr, 0);
    }
    if (const char* t = getenv("ZS_TRACE"))
        gTrace = fopen(t, "w");
    void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn)
    {
        fprintf(stderr, "REPLAY: no entry %s\n", argv[1]);
        return 45;
    }
    alarm(60);
    rlimit core = {0, 0};
    setrlimit(RLIMIT_CORE, &core);
    __sanitizer_install_malloc_and_free_hooks(mallocHook, freeHook);
    try
    {
        fn();
    }
    catch (const std::exception& e)
    {
        fprintf(stderr, "REPLAY: uncaught exception %s: %s\n", typeid(e).name(), e.what());
        _exit(41);
    }
    catch (...)
    {
        fprintf(stderr, "REPLAY: uncaught exception\n");
        _exit(41);
    }
    if (gTrace)
        fclose(gTrace);
    fprintf(stderr, "REPLAY: property held\n");
    _exit(0);
}
