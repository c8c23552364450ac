// Runtime library linked into every encoded program: the parts of libc, libstdc++ and libsupc++ whose bodies
// are not in headers.  Only __zs_* are interpreted by the executor itself.
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <memory_resource>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <typeinfo>
#include <unordered_map>
#include "zsym.h"

extern "C"
{
    void* __zs_alloc(uint64_t n, uint64_t kind);
    void __zs_free(void* p, uint64_t kind, uint64_t size);
    [[noreturn]] void __zs_unwind(void* obj, const void* ti);
    [[noreturn]] void __zs_terminate(const char* why);
}

// ---- allocation (kind: 0 malloc, 1 new, 2 new[], 3 exception)
void* operator new(size_t n)
{
    void* p = __zs_alloc(n, 1);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n)
{
    void* p = __zs_alloc(n, 2);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void* operator new(size_t n, std::align_val_t) { return operator new(n); }
void* operator new[](size_t n, std::align_val_t) { return operator new[](n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return __zs_alloc(n, 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return __zs_alloc(n, 2); }
void operator delete(void* p) noexcept { __zs_free(p, 1, ~0ull); }
void operator delete[](void* p) noexcept { __zs_free(p, 2, ~0ull); }
void operator delete(void* p, size_t n) noexcept { __zs_free(p, 1, n); }
void operator delete[](void* p, size_t) noexcept { __zs_free(p, 2, ~0ull); }
void operator delete(void* p, std::align_val_t) noexcept { __zs_free(p, 1, ~0ull); }
void operator delete(void* p, size_t n, std::align_val_t) noexcept { __zs_free(p, 1, n); }
void operator delete[](void* p, std::align_val_t) noexcept { __zs_free(p, 2, ~0ull); }
extern "C"
{
    void* malloc(size_t n) { return __zs_alloc(n, 0); }
    void free(void* p) { __zs_free(p, 0, ~0ull); }
    void* calloc(size_t a, size_t b)
    {
        void* p = __zs_alloc(a * b, 0);
        if (p)
            __builtin_memset(p, 0, a * b);
        return p;
    }

    size_t strlen(const char* s)
    {
        size_t n = 0;
        while (s[n])
            ++n;
        return n;
    }
    size_t strnlen(const char* s, size_t m)
    {
        size_t n = 0;
        while (n < m && s[n])
            ++n;
        return n;
    }
    int strcmp(const char* a, const char* b)
    {
        while (*a && *a == *b)
            ++a, ++b;
        return (unsigned char)*a - (unsigned char)*b;
    }
    void* zs_memchr(const void* p, int c, size_t n) asm("memchr");
    void* zs_memchr(const void* p, int c, size_t n)
    {
        const unsigned char* q = (const unsigned char*)p;
        for (size_t i = 0; i < n; ++i)
            if (q[i] == (unsigned char)c)
                return (void*)(q + i);
        return nullptr;
    }
    void* memset(void* p, int c, size_t n)
    {
        unsigned char* q = (unsigned char*)p;
        for (size_t i = 0; i < n; ++i)
            q[i] = (unsigned char)c;
        return p;
    }
    int isdigit(int c) { return c >= '0' && c <= '9'; }
    int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
    int isprint(int c) { return c >= 0x20 && c < 0x7f; }
    int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }

    static int zs_errno = 0;
    int* __errno_location() { return &zs_errno; }

    // decimal conversion as specified by the C standard (base 10, optional white space and sign, saturation)
    static unsigned long long zs_strtoull(const char* s, char** e, bool& neg, bool& over, bool& any, bool isSigned)
    {
        const char* p = s;
        while (isspace((unsigned char)*p))
            ++p;
        neg = false;
        if (*p == '-' || *p == '+')
        {
            neg = *p == '-';
            ++p;
        }
        const unsigned long long lim = !isSigned ? ~0ull : neg ? 0x8000000000000000ull : 0x7fffffffffffffffull;
        unsigned long long v = 0;
        over = false;
        any = false;
        while (*p >= '0' && *p <= '9')
        {
            unsigned d = (unsigned)(*p & 15);
            if (!over && (v > lim / 10 || (v == lim / 10 && d > lim % 10)))
                over = true;
            if (!over)
                v = v * 10 + d;
            any = true;
            ++p;
        }
        if (e)
            *e = (char*)(any ? p : s);
        return v;
    }
    long long strtoll(const char* s, char** e, int base)
    {
        if (base != 10)
            __zs_terminate("unmodelled strtoll base");
        bool neg, over, any;
        unsigned long long v = zs_strtoull(s, e, neg, over, any, true);
        if (over)
        {
            zs_errno = 34;
            return neg ? (long long)0x8000000000000000ull : 0x7fffffffffffffffll;
        }
        return (long long)(neg ? 0 - v : v);
    }
    unsigned long long strtoull(const char* s, char** e, int base)
    {
        if (base != 10)
            __zs_terminate("unmodelled strtoull base");
        bool neg, over, any;
        unsigned long long v = zs_strtoull(s, e, neg, over, any, false);
        if (over)
        {
            zs_errno = 34;
            return ~0ull;
        }
        return neg ? 0 - v : v;
    }
    // decimal floating point numbers; exact up to 15 digits and powers of ten up to 22, otherwise only close
    double strtod(const char* s, char** e)
    {
        const char* p = s;
        while (isspace((unsigned char)*p))
            ++p;
        bool neg = false;
        if (*p == '-' || *p == '+')
        {
            neg = *p == '-';
            ++p;
        }
        unsigned long long m = 0;
        long scale = 0;
        bool any = false;
        for (; *p >= '0' && *p <= '9'; ++p, any = true)
            m = m * 10 + (unsigned)(*p & 15);
        if (*p == '.')
        {
            const char* q = p + 1;
            for (; *q >= '0' && *q <= '9'; ++q, any = true, --scale)
                m = m * 10 + (unsigned)(*q & 15);
            if (any)
                p = q;
        }
        if (!any)
        {
            if (e)
                *e = (char*)s;
            return 0.0;
        }
        if (*p == 'e' || *p == 'E')
        {
            const char* q = p + 1;
            const bool negExp = zs_concretize(*q == '-') != 0;
            if (*q == '-' || *q == '+')
                ++q;
            if (*q >= '0' && *q <= '9')
            {
                long x = 0;
                for (; *q >= '0' && *q <= '9'; ++q)
                    if (x < 10000)
                        x = x * 10 + (long)zs_concretize(*q & 15);
                scale += negExp ? -x : x;
                p = q;
            }
        }
        if (e)
            *e = (char*)p;
        static const double powers[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15,
                1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
        double v = (double)m;
        if (scale >= 0)
            v = v * powers[scale < 22 ? scale : 22];
        else
            v = v / powers[scale > -22 ? -scale : 22];
        return neg ? -v : v;
    }
    long strtol(const char* s, char** e, int b) { return (long)strtoll(s, e, b); }
    unsigned long strtoul(const char* s, char** e, int b) { return (unsigned long)strtoull(s, e, b); }

    // ---- exceptions: 32 bytes in front of the object: type, destructor, handler count, next caught
    struct ZsExn
    {
        const std::type_info* ti;
        void (*dtor)(void*);
        long handlers;
        ZsExn* next;
    };
    static ZsExn* zsCaught = nullptr;
    static int zsUncaught = 0;

    void* __cxa_allocate_exception(size_t n) throw()
    {
        char* p = (char*)__zs_alloc(n + sizeof(ZsExn), 3);
        __builtin_memset(p, 0, sizeof(ZsExn));
        return p + sizeof(ZsExn);
    }
    void __cxa_free_exception(void* o) throw() { __zs_free((char*)o - sizeof(ZsExn), 3, ~0ull); }
    __attribute__((noinline)) void __cxa_throw(void* o, std::type_info* ti, void (*d)(void*))
    {
        ZsExn* h = (ZsExn*)o - 1;
        h->ti = ti;
        h->dtor = d;
        h->handlers = 0;
        ++zsUncaught;
        __zs_unwind(o, ti);
    }
    void* __cxa_begin_catch(void* o) throw()
    {
        ZsExn* h = (ZsExn*)o - 1;
        if (h->handlers < 0)
            h->handlers = -h->handlers + 1;
        else
            h->handlers++;
        --zsUncaught;
        if (zsCaught != h)
        {
            h->next = zsCaught;
            zsCaught = h;
        }
        return o;
    }
    void* __cxa_get_exception_ptr(void* o) throw() { return o; }
    void __cxa_end_catch()
    {
        ZsExn* h = zsCaught;
        if (!h)
            return;
        if (h->handlers < 0)
        {
            if (++h->handlers == 0)
                zsCaught = h->next;
            return;
        }
        if (--h->handlers == 0)
        {
            zsCaught = h->next;
            if (h->dtor)
                h->dtor(h + 1);
            __cxa_free_exception(h + 1);
        }
    }
    __attribute__((noinline)) void __cxa_rethrow()
    {
        ZsExn* h = zsCaught;
        if (!h)
            __zs_terminate("rethrow without exception");
        h->handlers = -h->handlers;
        ++zsUncaught;
        __zs_unwind(h + 1, h->ti);
    }
    void __cxa_pure_virtual() { __zs_terminate("pure virtual call"); }
    void __cxa_bad_cast() { throw std::bad_cast(); }
    void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
    int __cxa_guard_acquire(uint64_t* g) { return *(char*)g == 0; }
    void __cxa_guard_release(uint64_t* g) throw() { *(char*)g = 1; }
    void __cxa_guard_abort(uint64_t*) throw() {}
    void abort() { __zs_terminate("abort"); }
    void __assert_fail(const char*, const char*, unsigned, const char*) { __zs_terminate("assert"); }
    char __libc_single_threaded = 1;
    void* __dso_handle = nullptr;
    int zs_mutex_lock(void*) asm("pthread_mutex_lock");
    int zs_mutex_lock(void*) { return 0; }
    int zs_mutex_unlock(void*) asm("pthread_mutex_unlock");
    int zs_mutex_unlock(void*) { return 0; }
    // single inheritance down cast: compares the type of the complete object with the target
    void* __dynamic_cast(const void* sub, const void*, const void* dst, long)
    {
        const char* vt = *(const char* const*)sub;
        const void* ti = *(const void* const*)(vt - 8);
        long off = *(const long*)(vt - 16);
        return ti == dst ? (char*)sub + off : nullptr;
    }
}

namespace std
{
void terminate() noexcept { __zs_terminate("std::terminate"); }
int uncaught_exceptions() noexcept { return zsUncaught; }
bool uncaught_exception() noexcept { return zsUncaught != 0; }
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
type_info::~type_info() {}
const nothrow_t nothrow{};
namespace pmr
{
memory_resource::~memory_resource() = default;
namespace
{
struct ZsNewDelete : memory_resource
{
    void* do_allocate(size_t n, size_t) override { return ::operator new(n); }
    void do_deallocate(void* p, size_t, size_t) override { ::operator delete(p); }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
struct ZsNull : memory_resource
{
    void* do_allocate(size_t, size_t) override { throw std::bad_alloc(); }
    void do_deallocate(void*, size_t, size_t) override {}
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
ZsNewDelete zsNewDelete;
ZsNull zsNull;
memory_resource* zsDefault = &zsNewDelete;
} // namespace
memory_resource* new_delete_resource() noexcept { return &zsNewDelete; }
memory_resource* null_memory_resource() noexcept { return &zsNull; }
memory_resource* get_default_resource() noexcept { return zsDefault; }
memory_resource* set_default_resource(memory_resource* r) noexcept
{
    memory_resource* old = zsDefault;
    zsDefault = r ? r : &zsNewDelete;
    return old;
}
} // namespace pmr
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

// std::string is an extern template in libstdc++, its members are needed as bitcode
template class std::__cxx11::basic_string<char>;

// The reference counted string inside the standard exceptions is reduced to nothing: no code under check reads
// the text of a standard exception.
__cow_string::__cow_string() : _M_p(nullptr) {}
__cow_string::__cow_string(const std::string&) : _M_p(nullptr) {}
__cow_string::__cow_string(const char*, size_t) : _M_p(nullptr) {}
__cow_string::__cow_string(const __cow_string&) noexcept : _M_p(nullptr) {}
__cow_string& __cow_string::operator=(const __cow_string&) noexcept { return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&&) noexcept : _M_p(nullptr) {}
__cow_string& __cow_string::operator=(__cow_string&&) noexcept { return *this; }

#define ZS_EXC(C, B) \
    C::C(const std::string&) : B("") {} \
    C::C(const char*) : B("") {} \
    C::~C() noexcept {}
logic_error::logic_error(const std::string&) {}
logic_error::logic_error(const char*) {}
logic_error::logic_error(const logic_error&) noexcept {}
logic_error::logic_error(logic_error&&) noexcept {}
logic_error& logic_error::operator=(const logic_error&) noexcept { return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return "logic_error"; }
runtime_error::runtime_error(const std::string&) {}
runtime_error::runtime_error(const char*) {}
runtime_error::runtime_error(const runtime_error&) noexcept {}
runtime_error::runtime_error(runtime_error&&) noexcept {}
runtime_error& runtime_error::operator=(const runtime_error&) noexcept { return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return "runtime_error"; }
ZS_EXC(length_error, logic_error)
ZS_EXC(out_of_range, logic_error)
ZS_EXC(invalid_argument, logic_error)
ZS_EXC(domain_error, logic_error)
ZS_EXC(range_error, runtime_error)
ZS_EXC(overflow_error, runtime_error)
ZS_EXC(underflow_error, runtime_error)

void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { __zs_terminate("system_error"); }

size_t _Hash_bytes(const void* p, size_t n, size_t seed)
{
    const unsigned char* q = (const unsigned char*)p;
    size_t h = seed;
    for (size_t i = 0; i < n; ++i)
        h = h * 31 + q[i];
    return h;
}

namespace __detail
{
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    static const size_t primes[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741};
    for (size_t p : primes)
        if (p >= n)
        {
            _M_next_resize = p;
            return p;
        }
    _M_next_resize = n;
    return n;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const
{
    if (ne + ni > _M_next_resize || ne + ni > nb)
    {
        size_t w = (ne + ni) * 2;
        return {true, _M_next_bkt(w)};
    }
    return {false, 0};
}
} // namespace __detail

// red-black tree support without rebalancing: the tree stays a correct search tree
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
    if (x->_M_right)
    {
        x = x->_M_right;
        while (x->_M_left)
            x = x->_M_left;
        return x;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right)
    {
        x = y;
        y = y->_M_parent;
    }
    if (x->_M_right != y)
        x = y;
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw()
{
    return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x)
        return x->_M_right;
    if (x->_M_left)
    {
        _Rb_tree_node_base* y = x->_M_left;
        while (y->_M_right)
            y = y->_M_right;
        return y;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left)
    {
        x = y;
        y = y->_M_parent;
    }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw()
{
    return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
    x->_M_parent = p;
    x->_M_left = nullptr;
    x->_M_right = nullptr;
    x->_M_color = _S_black;
    if (left)
    {
        p->_M_left = x;
        if (p == &h)
        {
            h._M_parent = x;
            h._M_right = x;
        }
        else if (p == h._M_left)
            h._M_left = x;
    }
    else
    {
        p->_M_right = x;
        if (p == h._M_right)
            h._M_right = x;
    }
}
} // namespace std

// ---- dummy stream initialisation
namespace std
{
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
} // namespace std

// ---- streams: the classes of libstdc++ over a stream buffer of the harness; locales are empty, numbers are formatted in
// decimal as in the "C" locale
#include <istream>
#include <ostream>
#include <streambuf>
namespace std
{
static const void* zsFacetTable[64];
static struct
{
    int refs;
    const void** facets;
    size_t size;
    const void** caches;
    char** names;
} zsNoFacets = {1, zsFacetTable, 64, zsFacetTable, nullptr};
locale::locale() throw() : _M_impl((_Impl*)&zsNoFacets) {}
locale::locale(const locale&) throw() : _M_impl((_Impl*)&zsNoFacets) {}
size_t locale::id::_M_id() const throw() { return 0; }
locale::~locale() throw() {}
const locale& locale::operator=(const locale&) throw() { return *this; }
ios_base::ios_base() throw() :
        _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit),
        _M_callbacks(nullptr), _M_word_zero(), _M_local_word(), _M_word_size(_S_local_word_size), _M_word(_M_local_word)
{}
ios_base::~ios_base() {}
void ios_base::_M_init() throw()
{
    _M_precision = 6;
    _M_width = 0;
    _M_flags = skipws | dec;
}
void ios_base::_M_dispose_callbacks() throw() {}
void ios_base::_M_call_callbacks(event) throw() {}
void __throw_ios_failure(const char*) { __zs_terminate("ios failure"); }
template class basic_streambuf<char>;
template class basic_ios<char>;
template class basic_istream<char>;
template class basic_ostream<char>;
template basic_ostream<char>& __ostream_insert(basic_ostream<char>&, const char*, streamsize);
template basic_ostream<char>& operator<<(basic_ostream<char>&, const char*);
template basic_ostream<char>& operator<<(basic_ostream<char>&, char);
} // namespace std
static std::ostream& zsPutNumber(std::ostream* os, bool negative, unsigned long long v)
{
    char text[24];
    int n = 24;
    do
    {
        text[--n] = (char)('0' + v % 10);
        v /= 10;
    } while (v != 0);
    if (negative)
        text[--n] = '-';
    os->rdbuf()->sputn(text + n, 24 - n);
    return *os;
}
extern "C"
{
    std::ostream& zs_put_l(std::ostream* os, long v) asm("_ZNSo9_M_insertIlEERSoT_");
    std::ostream& zs_put_l(std::ostream* os, long v)
    {
        return zsPutNumber(os, v < 0, v < 0 ? 0 - (unsigned long)v : (unsigned long)v);
    }
    std::ostream& zs_put_ul(std::ostream* os, unsigned long v) asm("_ZNSo9_M_insertImEERSoT_");
    std::ostream& zs_put_ul(std::ostream* os, unsigned long v) { return zsPutNumber(os, false, v); }
    std::ostream& zs_put_b(std::ostream* os, bool v) asm("_ZNSo9_M_insertIbEERSoT_");
    std::ostream& zs_put_b(std::ostream* os, bool v)
    {
        if (os->flags() & std::ios_base::boolalpha)
        {
            os->rdbuf()->sputn(v ? "true" : "false", v ? 4 : 5);
            return *os;
        }
        return zsPutNumber(os, false, v);
    }
}
