// zsym: symbolic executor for LLVM 18 bitcode.
#include "expr.h"
#include "solver.h"
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/DenseMap.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <set>
#include <sys/resource.h>
#include <unistd.h>

using namespace llvm;

static void fatal(const std::string& m)
{
    fprintf(stderr, "ENGINE-ERROR: %s\n", m.c_str());
    fflush(stderr);
    _exit(3);
}

// =============================================================================================== memory
enum ObjKind : uint8_t { K_GLOBAL, K_STACK, K_MALLOC, K_NEW, K_NEWARR, K_FUNC, K_EXN };
static const char* kindName[] = {"global", "stack", "malloc", "new", "new[]", "function", "exception"};

struct Obj
{
    int rc = 0;
    uint64_t size = 0;
    ObjKind kind = K_GLOBAL;
    bool ro = false;
    uint32_t align = 0;
    std::vector<uint8_t> conc;
    std::vector<uint8_t> st; // 0 concrete, 1 uninitialised, 2 symbolic
    std::vector<Ref> sym;
    std::string name;
};
struct ObjPtr
{
    Obj* p = nullptr;
    ObjPtr() {}
    explicit ObjPtr(Obj* o) : p(o) { if (p) ++p->rc; }
    ObjPtr(const ObjPtr& o) : p(o.p) { if (p) ++p->rc; }
    ObjPtr(ObjPtr&& o) noexcept : p(o.p) { o.p = nullptr; }
    ObjPtr& operator=(ObjPtr o) noexcept { std::swap(p, o.p); return *this; }
    ~ObjPtr() { if (p && --p->rc == 0) delete p; }
};

static const uint64_t BASE_OFF = 0x10000;
static inline uint64_t addrOf(uint32_t id) { return ((uint64_t)id << 32) + BASE_OFF; }

// =============================================================================================== module
struct KInst
{
    Instruction* I;
    unsigned opc;
    int dest = -1;
    std::vector<int> ops; // >=0 register, <0 constant -1-x
    int bb = 0;
    bool executed = false;
    // extras
    unsigned w = 0;                                  // result scalar width
    int64_t gepOff = 0;
    std::vector<std::pair<int, int64_t>> gepIdx;     // (operand index in ops, scale)
    std::vector<int> succ;                           // block indices
    std::vector<uint64_t> caseVals;                  // switch
    std::vector<int> incBB;                          // phi
    Function* callee = nullptr;
    unsigned intr = 0;
};
struct KFunc
{
    Function* F;
    std::vector<KInst> insts;
    std::vector<int> bbStart;
    int nregs = 0;
    bool decoded = false;
    bool executed = false;
    uint64_t calls = 0;
};

static LLVMContext gCtx;
static std::unique_ptr<Module> gMod;
static const DataLayout* DL;
static DenseMap<const Function*, KFunc*> gFuncs;
static std::vector<Ref> gConsts;
static DenseMap<const Constant*, int> gConstIdx;
static DenseMap<const GlobalValue*, uint64_t> gAddr;
static std::vector<ObjPtr> gStatic;                    // read-only globals and functions
static std::map<uint32_t, Function*> gFuncById;
static uint32_t gFirstDyn = 0;
static std::map<uint64_t, std::string> gExternData;

// =============================================================================================== state
struct Frame
{
    KFunc* kf;
    int pc = 0;
    std::vector<Ref> regs;
    std::vector<uint32_t> allocas;
};
struct Input
{
    std::string name;
    std::vector<Ref> bytes; // each expression; printed as little endian numbers
    unsigned w;             // width of each element in bits
};
struct State
{
    std::vector<Frame> stack;
    std::vector<ObjPtr> objs;
    std::vector<Ref> cons;
    std::vector<uint64_t> model;
    std::vector<Input> inputs;
    std::vector<Function*> pending;
    size_t pendingPos = 0;
    uint64_t steps = 0;
    uint64_t maxSteps = 0;
    uint64_t allocLimit = 0;
    bool allocLimitIsViolation = false;
    uint64_t nAlloc = 0, nFree = 0;
    uint32_t symOrd = 0, undefOrd = 0;
    uint32_t forks = 0;
    // in-flight exception, between unwinding and the landing pad
    uint64_t exnObj = 0, exnType = 0;
};

// ---- run options and results ---------------------------------------------------------------------------
static std::string gEntry, gOut, gConcreteFile, gViolDir;
static std::map<std::string, uint64_t> gParams;
static uint64_t gMaxSteps = 20000000, gMaxPaths = 2000000, gMaxFork = 100000;
static double gMaxTime = 600;
static int gMaxViol = 3;
static bool gStepsAreViolation = false;
static std::vector<State*> gWork;
static std::vector<uint64_t> gConcreteIn;
static size_t gConcretePos = 0;
static bool gConcrete = false;

struct Stats
{
    uint64_t paths = 0, instrs = 0, forks = 0, pruned = 0, assumeKilled = 0;
    uint64_t asserts = 0, assertTrivial = 0, assertSolved = 0;
    uint64_t concretizations = 0, symReads = 0, uninitReads = 0, allocRefused = 0;
    std::map<std::string, uint64_t> reach;
    std::map<std::string, uint64_t> assertMsgs;
    std::vector<std::string> incomplete;
    std::vector<std::string> outs;
    uint64_t maxInputsBits = 0;
    std::vector<std::string> samples;
} gStats;
struct Violation
{
    std::string kind, msg, where, trace;
    std::vector<Input> inputs;
    std::vector<std::vector<uint64_t>> values;
};
static std::vector<Violation> gViol;
static std::chrono::steady_clock::time_point gT0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - gT0).count(); }

struct PathEnd {};   // thrown to terminate the current state

static std::string locOf(const Instruction* I)
{
    const DebugLoc& d = I->getDebugLoc();
    std::string s;
    if (d)
    {
        if (auto* sc = dyn_cast<DIScope>(d.getScope()))
            s = sc->getFilename().str() + ":" + std::to_string(d.getLine());
    }
    return s;
}
static std::string traceOf(const State& s)
{
    std::string t;
    for (size_t i = s.stack.size(); i-- > 0;)
    {
        const Frame& f = s.stack[i];
        if (f.pc < (int)f.kf->insts.size())
            t += demangle(f.kf->F->getName().str()) + " @ " + locOf(f.kf->insts[f.pc].I) + "\n";
        if (s.stack.size() - i > 30)
            break;
    }
    return t;
}

static void violation(State& s, const std::string& kind, const std::string& msg, const std::vector<uint64_t>* model = nullptr)
{
    const std::vector<uint64_t>& m = model ? *model : s.model;
    Violation v;
    v.kind = kind;
    v.msg = msg;
    if (!s.stack.empty())
        v.where = locOf(s.stack.back().kf->insts[s.stack.back().pc].I);
    v.trace = traceOf(s);
    v.inputs = s.inputs;
    for (auto& in : s.inputs)
    {
        std::vector<uint64_t> vals;
        for (Ref e : in.bytes)
            vals.push_back((uint64_t)evalExpr(e, m));
        v.values.push_back(vals);
    }
    gViol.push_back(v);
}
[[noreturn]] static void killViolation(State& s, const std::string& kind, const std::string& msg)
{
    violation(s, kind, msg);
    throw PathEnd();
}
static void incomplete(const std::string& why)
{
    for (auto& x : gStats.incomplete)
        if (x == why)
            return;
    gStats.incomplete.push_back(why);
}

static void addCons(State& s, Ref c)
{
    if (c->isConst())
        return;
    if (c->op == Op::And && c->w == 1)
    {
        addCons(s, c->a);
        addCons(s, c->b);
        return;
    }
    for (Ref x : s.cons)
        if (x == c)
            return;
    s.cons.push_back(c);
}

// A condition which the path constraints contain or contradict literally becomes a constant.
static Ref known(State& s, Ref c)
{
    if (c->isConst() || c->w != 1)
        return c;
    Ref neg = mkNot1(c);
    for (Ref x : s.cons)
    {
        if (x == c)
            return mkConst(1, 1);
        if (x == neg)
            return mkConst(0, 1);
    }
    if (c->op == Op::Ule || c->op == Op::Sle)
    {
        Ref strict = mkBin(c->op == Op::Ule ? Op::Ult : Op::Slt, c->a, c->b);
        for (Ref x : s.cons)
            if (x == strict)
                return mkConst(1, 1);
    }
    if (c->op == Op::Ult || c->op == Op::Slt)
    {
        Ref opposite = mkBin(c->op, c->b, c->a);
        for (Ref x : s.cons)
            if (x == opposite)
                return mkConst(0, 1);
    }
    if (c->op == Op::Eq && c->a->w > 1)
    {
        Ref o[4] = {mkBin(Op::Ult, c->a, c->b), mkBin(Op::Ult, c->b, c->a), mkBin(Op::Slt, c->a, c->b), mkBin(Op::Slt, c->b, c->a)};
        for (Ref x : s.cons)
            if (x == o[0] || x == o[1] || x == o[2] || x == o[3])
                return mkConst(0, 1);
    }
    return c;
}

// Decide a width-1 condition for this state; when both outcomes are feasible the other one becomes a new
// state that re-executes the current instruction under the opposite constraint.
static bool decide(State& s, Ref cond)
{
    cond = known(s, cond);
    if (cond->isConst())
        return cond->v != 0;
    s.model.resize(gVars.size(), 0);
    bool m = evalExpr(cond, s.model) != 0;
    Ref neg = mkNot1(cond);
    Ref mine = m ? cond : neg, alt = m ? neg : cond;
    std::vector<uint64_t> mdl = s.model;
    Sat r = solverCheck(s.cons, alt, mdl);
    if (r == Sat::No)
        return m;
    if (r == Sat::Unknown)
    {
        incomplete("solver returned unknown");
        addCons(s, mine);
        return m;
    }
    ++gStats.forks;
    if (++s.forks > gMaxFork || gWork.size() > 200000)
    {
        incomplete("fork limit");
        throw PathEnd();
    }
    State* t = new State(s);
    addCons(*t, alt);
    t->model = mdl;
    gWork.push_back(t);
    addCons(s, mine);
    return m;
}
static uint64_t concretize(State& s, Ref e)
{
    if (e->isConst())
        return (uint64_t)e->v;
    ++gStats.concretizations;
    s.model.resize(gVars.size(), 0);
    u128 v = evalExpr(e, s.model);
    decide(s, mkEq(e, mkConst(v, e->w)));
    return (uint64_t)v;
}

// ---- objects -------------------------------------------------------------------------------------------
static Obj* peek(State& s, uint32_t id)
{
    if (id == 0)
        return nullptr;
    if (id < gFirstDyn)
        return id < gStatic.size() ? gStatic[id].p : nullptr;
    uint32_t i = id - gFirstDyn;
    return i < s.objs.size() ? s.objs[i].p : nullptr;
}
static Obj* writable(State& s, uint32_t id)
{
    ObjPtr& r = s.objs[id - gFirstDyn];
    if (r.p->rc > 1)
    {
        Obj* n = new Obj(*r.p);
        n->rc = 0;
        r = ObjPtr(n);
    }
    return r.p;
}
static uint64_t allocObj(State& s, uint64_t size, ObjKind k, const std::string& name, bool uninit)
{
    Obj* o = new Obj();
    o->size = size;
    o->kind = k;
    o->conc.assign(size, 0);
    o->st.assign(size, uninit ? 1 : 0);
    o->name = name;
    s.objs.emplace_back(o);
    return addrOf(gFirstDyn + (uint32_t)s.objs.size() - 1);
}
static std::string describe(State& s, uint64_t a)
{
    char b[200];
    uint32_t id = a >> 32;
    Obj* o = peek(s, id);
    if (a < 0x100000000ull)
        snprintf(b, sizeof b, "null-ish pointer 0x%llx", (unsigned long long)a);
    else if (!o)
        snprintf(b, sizeof b, "pointer into freed or never allocated object #%u, offset %lld", id, (long long)((a & 0xffffffff) - BASE_OFF));
    else
        snprintf(b, sizeof b, "offset %lld of %s object '%s' of size %llu", (long long)((a & 0xffffffff) - BASE_OFF),
                kindName[o->kind], o->name.c_str(), (unsigned long long)o->size);
    return b;
}
static bool inBounds(Obj* o, uint64_t a, uint64_t n)
{
    if (!o || o->kind == K_FUNC)
        return false;
    uint64_t off = (a & 0xffffffff) - BASE_OFF;
    return off <= o->size && n <= o->size - off;
}

static Ref freshSym(const std::string& name, unsigned w, uint32_t ord, bool undef)
{
    static std::map<std::tuple<bool, uint32_t, unsigned>, Ref> tab;
    auto& r = tab[{undef, ord, w}];
    if (!r)
        r = mkSym((undef ? "undef" : "in") + std::to_string(ord) + "_" + name, w);
    return r;
}

static Ref readByte(State& s, uint32_t id, Obj*& o, uint64_t off)
{
    uint8_t t = o->st[off];
    if (t == 0)
        return mkConst(o->conc[off], 8);
    if (t == 2)
        return o->sym[off];
    // uninitialised: give the byte an arbitrary but fixed value
    ++gStats.uninitReads;
    Ref e = gConcrete ? mkConst(0, 8) : freshSym("uninit", 8, s.undefOrd++, true);
    if (id >= gFirstDyn)
    {
        o = writable(s, id);
        if (o->sym.empty())
            o->sym.assign(o->size, nullptr);
        o->sym[off] = e;
        o->st[off] = 2;
    }
    return e;
}
static Ref readN(State& s, uint32_t id, uint64_t off, unsigned n)
{
    Obj* o = peek(s, id);
    bool allc = true;
    for (unsigned i = 0; i < n; ++i)
        if (o->st[off + i])
        {
            allc = false;
            break;
        }
    if (allc && n <= 16)
    {
        u128 v = 0;
        memcpy(&v, o->conc.data() + off, n);
        return mkConst(v, n * 8);
    }
    Ref r = readByte(s, id, o, off);
    for (unsigned i = 1; i < n; ++i)
        r = mkConcat(readByte(s, id, o, off + i), r);
    return r;
}
static void writeN(State& s, uint32_t id, uint64_t off, Ref v)
{
    Obj* o = writable(s, id);
    unsigned n = v->w / 8;
    if (v->isConst())
    {
        memcpy(o->conc.data() + off, &v->v, n);
        memset(o->st.data() + off, 0, n);
        return;
    }
    if (o->sym.empty())
        o->sym.assign(o->size, nullptr);
    for (unsigned i = 0; i < n; ++i)
    {
        Ref b = mkExtract(v, i * 8, 8);
        if (b->isConst())
        {
            o->conc[off + i] = (uint8_t)b->v;
            o->st[off + i] = 0;
        }
        else
        {
            o->sym[off + i] = b;
            o->st[off + i] = 2;
        }
    }
}

// Resolve an address for an access of n bytes.  Returns object id and either a concrete offset or a symbolic one.
struct Place
{
    uint32_t id;
    uint64_t off;
    Ref symOff; // null when concrete
};
static Place place(State& s, Ref addr, uint64_t n, const char* what, bool write)
{
    if (!addr->isConst())
    {
        s.model.resize(gVars.size(), 0);
        uint64_t a0 = (uint64_t)evalExpr(addr, s.model);
        uint32_t id = a0 >> 32;
        Obj* o = peek(s, id);
        if (!inBounds(o, a0, n))
            killViolation(s, std::string("invalid-") + what, describe(s, a0) + " (" + std::to_string(n) + " bytes)");
        uint64_t base = addrOf(id);
        Ref off = mkBin(Op::Sub, addr, mkConst(base, 64));
        Ref inb = mkBin(Op::Ule, off, mkConst(o->size - n, 64));
        decide(s, inb); // model says in bounds; the other side re-executes and reports
        if (write && o->ro)
            killViolation(s, "invalid-write", "write to read-only " + describe(s, a0));
        unsigned tz = knownTrailingZeros(off);
        if (tz > 6)
            tz = 6;
        uint64_t lo = off->umin, hi = off->umax < o->size - n ? off->umax : o->size - n;
        if (off->isConst())
            return {id, (uint64_t)off->v, nullptr};
        uint64_t cnt = ((hi - lo) >> tz) + 1;
        if (cnt <= 260 && !(write && cnt > 70))
        {
            ++gStats.symReads;
            return {id, 0, off};
        }
        addr = mkConst(concretize(s, addr), 64);
    }
    uint64_t a = (uint64_t)addr->v;
    uint32_t id = a >> 32;
    Obj* o = peek(s, id);
    if (!inBounds(o, a, n))
        killViolation(s, std::string("invalid-") + what, describe(s, a) + " (" + std::to_string(n) + " bytes)");
    if (write && (o->ro || id < gFirstDyn))
        killViolation(s, "invalid-write", "write to read-only " + describe(s, a));
    return {id, (a & 0xffffffff) - BASE_OFF, nullptr};
}
static Ref loadBytes(State& s, Ref addr, unsigned n)
{
    Place p = place(s, addr, n, "read", false);
    if (!p.symOff)
        return readN(s, p.id, p.off, n);
    Obj* o = peek(s, p.id);
    unsigned tz = knownTrailingZeros(p.symOff);
    if (tz > 6)
        tz = 6;
    uint64_t step = 1ull << tz;
    uint64_t lo = (p.symOff->umin + step - 1) & ~(step - 1), hi = std::min<uint64_t>(p.symOff->umax, o->size - n);
    Ref r = nullptr;
    for (uint64_t k = lo; k <= hi; k += step)
    {
        Ref v = readN(s, p.id, k, n);
        r = r ? mkIte(mkEq(p.symOff, mkConst(k, 64)), v, r) : v;
    }
    return r;
}
static void storeBytes(State& s, Ref addr, Ref v)
{
    unsigned n = v->w / 8;
    Place p = place(s, addr, n, "write", true);
    if (!p.symOff)
    {
        writeN(s, p.id, p.off, v);
        return;
    }
    Obj* o = peek(s, p.id);
    unsigned tz = knownTrailingZeros(p.symOff);
    if (tz > 6)
        tz = 6;
    uint64_t step = 1ull << tz;
    uint64_t lo = (p.symOff->umin + step - 1) & ~(step - 1), hi = std::min<uint64_t>(p.symOff->umax, o->size - n);
    for (uint64_t k = lo; k <= hi; k += step)
    {
        Ref old = readN(s, p.id, k, n);
        writeN(s, p.id, k, mkIte(mkEq(p.symOff, mkConst(k, 64)), v, old));
    }
}

// ---- typed load/store ----------------------------------------------------------------------------------
static unsigned scalarBits(Type* t)
{
    if (t->isIntegerTy())
        return t->getIntegerBitWidth();
    if (t->isPointerTy())
        return 64;
    if (t->isFloatTy())
        return 32;
    if (t->isDoubleTy())
        return 64;
    return 0;
}
static Ref loadT(State& s, Type* t, Ref addr)
{
    if (unsigned w = scalarBits(t))
    {
        unsigned n = (w + 7) / 8;
        if (n > 16)
            fatal("load wider than 128 bits");
        Ref r = loadBytes(s, addr, n);
        return w == n * 8 ? r : mkExtract(r, 0, w);
    }
    std::vector<Ref> el;
    if (auto* st = dyn_cast<StructType>(t))
    {
        const StructLayout* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i)
            el.push_back(loadT(s, st->getElementType(i), mkBin(Op::Add, addr, mkConst(sl->getElementOffset(i), 64))));
        return mkAgg(el);
    }
    Type* et;
    uint64_t cnt;
    if (auto* at = dyn_cast<ArrayType>(t))
    {
        et = at->getElementType();
        cnt = at->getNumElements();
    }
    else if (auto* vt = dyn_cast<FixedVectorType>(t))
    {
        et = vt->getElementType();
        cnt = vt->getNumElements();
        if (scalarBits(et) % 8)
        {
            Ref r = loadBytes(s, addr, (unsigned)(scalarBits(et) * cnt + 7) / 8);
            for (uint64_t i = 0; i < cnt; ++i)
                el.push_back(mkExtract(r, (unsigned)i * scalarBits(et), scalarBits(et)));
            return mkAgg(el);
        }
    }
    else
    {
        std::string n;
        raw_string_ostream os(n);
        t->print(os);
        fatal("load of unsupported type " + n);
    }
    uint64_t sz = DL->getTypeAllocSize(et);
    for (uint64_t i = 0; i < cnt; ++i)
        el.push_back(loadT(s, et, mkBin(Op::Add, addr, mkConst(i * sz, 64))));
    return mkAgg(el);
}
static void storeT(State& s, Type* t, Ref addr, Ref v)
{
    if (unsigned w = scalarBits(t))
    {
        unsigned n = (w + 7) / 8;
        storeBytes(s, addr, mkZExt(v, n * 8));
        return;
    }
    if (auto* st = dyn_cast<StructType>(t))
    {
        const StructLayout* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i)
            storeT(s, st->getElementType(i), mkBin(Op::Add, addr, mkConst(sl->getElementOffset(i), 64)), v->elems[i]);
        return;
    }
    Type* et;
    uint64_t cnt;
    if (auto* at = dyn_cast<ArrayType>(t))
    {
        et = at->getElementType();
        cnt = at->getNumElements();
    }
    else if (auto* vt = dyn_cast<FixedVectorType>(t))
    {
        et = vt->getElementType();
        cnt = vt->getNumElements();
        if (scalarBits(et) % 8)
        {
            Ref r = v->elems[0];
            for (uint64_t i = 1; i < cnt; ++i)
                r = mkConcat(v->elems[i], r);
            storeBytes(s, addr, mkZExt(r, (r->w + 7) / 8 * 8));
            return;
        }
    }
    else
        fatal("store of unsupported type");
    uint64_t sz = DL->getTypeAllocSize(et);
    for (uint64_t i = 0; i < cnt; ++i)
        storeT(s, et, mkBin(Op::Add, addr, mkConst(i * sz, 64)), v->elems[i]);
}
static Ref zeroOf(Type* t)
{
    if (unsigned w = scalarBits(t))
        return mkConst(0, w);
    std::vector<Ref> el;
    if (auto* st = dyn_cast<StructType>(t))
        for (unsigned i = 0; i < st->getNumElements(); ++i)
            el.push_back(zeroOf(st->getElementType(i)));
    else if (auto* at = dyn_cast<ArrayType>(t))
        for (uint64_t i = 0; i < at->getNumElements(); ++i)
            el.push_back(zeroOf(at->getElementType()));
    else if (auto* vt = dyn_cast<FixedVectorType>(t))
        for (uint64_t i = 0; i < vt->getNumElements(); ++i)
            el.push_back(zeroOf(vt->getElementType()));
    else
        fatal("zero of unsupported type");
    return mkAgg(el);
}

// ---- constants -----------------------------------------------------------------------------------------
static Ref evalConst(const Constant* c)
{
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c))
    {
        const APInt& v = ci->getValue();
        if (v.getBitWidth() > 128)
            fatal("integer constant wider than 128");
        u128 x = v.getRawData()[0];
        if (v.getNumWords() > 1)
            x |= (u128)v.getRawData()[1] << 64;
        return mkConst(x, v.getBitWidth());
    }
    if (auto* cf = dyn_cast<ConstantFP>(c))
    {
        if (!t->isFloatTy() && !t->isDoubleTy())
            fatal("unsupported float constant");
        return mkConst(cf->getValueAPF().bitcastToAPInt().getZExtValue(), scalarBits(t));
    }
    if (isa<ConstantPointerNull>(c))
        return mkConst(0, 64);
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c))
        return zeroOf(t);
    if (auto* gv = dyn_cast<GlobalValue>(c))
    {
        if (auto* ga = dyn_cast<GlobalAlias>(gv))
            return evalConst(ga->getAliasee());
        return mkConst(gAddr.lookup(gv), 64);
    }
    if (auto* ca = dyn_cast<ConstantDataSequential>(c))
    {
        std::vector<Ref> el;
        for (unsigned i = 0; i < ca->getNumElements(); ++i)
            el.push_back(evalConst(ca->getElementAsConstant(i)));
        return mkAgg(el);
    }
    if (isa<ConstantAggregate>(c))
    {
        std::vector<Ref> el;
        for (unsigned i = 0; i < c->getNumOperands(); ++i)
            el.push_back(evalConst(cast<Constant>(c->getOperand(i))));
        return mkAgg(el);
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c))
    {
        switch (ce->getOpcode())
        {
        case Instruction::GetElementPtr:
        {
            Ref base = evalConst(ce->getOperand(0));
            APInt off(64, 0);
            if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off))
                fatal("non-constant gep constant");
            return mkBin(Op::Add, base, mkConst(off.getZExtValue(), 64));
        }
        case Instruction::BitCast:
        case Instruction::IntToPtr:
        case Instruction::PtrToInt:
        {
            Ref v = evalConst(ce->getOperand(0));
            return mkZExtOrTrunc(v, scalarBits(t));
        }
        case Instruction::Trunc: return mkExtract(evalConst(ce->getOperand(0)), 0, scalarBits(t));
        case Instruction::Sub: return mkBin(Op::Sub, evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1)));
        case Instruction::Add: return mkBin(Op::Add, evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1)));
        case Instruction::And: return mkBin(Op::And, evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1)));
        case Instruction::Xor: return mkBin(Op::Xor, evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1)));
        case Instruction::ICmp:
        {
            Ref a = evalConst(ce->getOperand(0)), b = evalConst(ce->getOperand(1));
            if (ce->getPredicate() == CmpInst::ICMP_EQ)
                return mkEq(a, b);
            if (ce->getPredicate() == CmpInst::ICMP_NE)
                return mkNot1(mkEq(a, b));
            break;
        }
        default: break;
        }
        fatal(std::string("unsupported constant expression ") + ce->getOpcodeName());
    }
    std::string n;
    raw_string_ostream os(n);
    c->print(os);
    fatal("unsupported constant " + n);
    return nullptr;
}

static void initGlobal(Obj* o, Type* t, const Constant* c, uint64_t off)
{
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c))
        return;
    if (unsigned w = scalarBits(t))
    {
        Ref v = evalConst(c);
        unsigned n = (w + 7) / 8;
        memcpy(o->conc.data() + off, &v->v, n);
        return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c))
    {
        StringRef raw = cd->getRawDataValues();
        memcpy(o->conc.data() + off, raw.data(), raw.size());
        return;
    }
    if (auto* st = dyn_cast<StructType>(t))
    {
        const StructLayout* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i)
            initGlobal(o, st->getElementType(i), c->getAggregateElement(i), off + sl->getElementOffset(i));
        return;
    }
    Type* et = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<FixedVectorType>(t)->getElementType();
    uint64_t cnt = isa<ArrayType>(t) ? cast<ArrayType>(t)->getNumElements() : cast<FixedVectorType>(t)->getNumElements();
    uint64_t sz = DL->getTypeAllocSize(et);
    for (uint64_t i = 0; i < cnt; ++i)
        initGlobal(o, et, c->getAggregateElement((unsigned)i), off + i * sz);
}

// ---- decoding ------------------------------------------------------------------------------------------
static int constIdx(const Constant* c)
{
    auto it = gConstIdx.find(c);
    if (it != gConstIdx.end())
        return it->second;
    Ref e = (isa<Function>(c) && cast<Function>(c)->isIntrinsic()) ? mkConst(0, 64) : evalConst(c);
    gConsts.push_back(e);
    int i = (int)gConsts.size() - 1;
    gConstIdx[c] = i;
    return i;
}

static void decode(KFunc* kf)
{
    Function* F = kf->F;
    DenseMap<const Value*, int> reg;
    DenseMap<const BasicBlock*, int> bbi;
    int n = 0;
    for (auto& a : F->args())
        reg[&a] = n++;
    int bi = 0;
    for (auto& b : *F)
    {
        bbi[&b] = bi++;
        for (auto& i : b)
            if (!i.getType()->isVoidTy())
                reg[&i] = n++;
    }
    kf->nregs = n;
    for (auto& b : *F)
    {
        kf->bbStart.push_back((int)kf->insts.size());
        for (auto& i : b)
        {
            if (isa<DbgInfoIntrinsic>(i))
                continue;
            KInst k;
            k.I = &i;
            k.opc = i.getOpcode();
            k.bb = bbi[&b];
            if (!i.getType()->isVoidTy())
            {
                k.dest = reg[&i];
                k.w = scalarBits(i.getType());
            }
            auto op = [&](Value* v) -> int {
                if (auto* c = dyn_cast<Constant>(v))
                    return -1 - constIdx(c);
                auto it = reg.find(v);
                if (it == reg.end())
                    fatal("operand without register");
                return it->second;
            };
            if (auto* cb = dyn_cast<CallBase>(&i))
            {
                Value* cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto* ga = dyn_cast<GlobalAlias>(cv))
                    cv = ga->getAliaseeObject();
                k.callee = dyn_cast<Function>(cv);
                if (k.callee)
                    k.intr = k.callee->getIntrinsicID();
                for (auto& a : cb->args())
                {
                    if (a->getType()->isMetadataTy())
                        k.ops.push_back(-1 - constIdx(ConstantInt::get(Type::getInt1Ty(gCtx), 0)));
                    else
                        k.ops.push_back(op(a));
                }
                if (!k.callee)
                {
                    if (isa<InlineAsm>(cv))
                        k.intr = 0;
                    else
                        k.ops.push_back(op(cv)); // last operand: target
                }
                if (auto* inv = dyn_cast<InvokeInst>(&i))
                {
                    k.succ.push_back(bbi[inv->getNormalDest()]);
                    k.succ.push_back(bbi[inv->getUnwindDest()]);
                }
            }
            else if (auto* br = dyn_cast<BranchInst>(&i))
            {
                if (br->isConditional())
                    k.ops.push_back(op(br->getCondition()));
                for (unsigned j = 0; j < br->getNumSuccessors(); ++j)
                    k.succ.push_back(bbi[br->getSuccessor(j)]);
            }
            else if (auto* sw = dyn_cast<SwitchInst>(&i))
            {
                k.ops.push_back(op(sw->getCondition()));
                k.succ.push_back(bbi[sw->getDefaultDest()]);
                for (auto c : sw->cases())
                {
                    k.caseVals.push_back(c.getCaseValue()->getZExtValue());
                    k.succ.push_back(bbi[c.getCaseSuccessor()]);
                }
            }
            else if (auto* ph = dyn_cast<PHINode>(&i))
            {
                for (unsigned j = 0; j < ph->getNumIncomingValues(); ++j)
                {
                    k.ops.push_back(op(ph->getIncomingValue(j)));
                    k.incBB.push_back(bbi[ph->getIncomingBlock(j)]);
                }
            }
            else if (auto* gep = dyn_cast<GetElementPtrInst>(&i))
            {
                if (gep->getType()->isVectorTy())
                    fatal("vector gep");
                k.ops.push_back(op(gep->getPointerOperand()));
                for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi)
                {
                    Value* idx = gi.getOperand();
                    if (StructType* st = gi.getStructTypeOrNull())
                        k.gepOff += (int64_t)DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                    else
                    {
                        int64_t sz = (int64_t)DL->getTypeAllocSize(gi.getIndexedType()).getFixedValue();
                        if (auto* ci = dyn_cast<ConstantInt>(idx))
                            k.gepOff += ci->getSExtValue() * sz;
                        else
                        {
                            k.ops.push_back(op(idx));
                            k.gepIdx.push_back({(int)k.ops.size() - 1, sz});
                        }
                    }
                }
            }
            else if (isa<LandingPadInst>(i))
            {
            }
            else
            {
                for (auto& o : i.operands())
                    if (!isa<BasicBlock>(o))
                        k.ops.push_back(op(o));
            }
            kf->insts.push_back(std::move(k));
        }
    }
    kf->decoded = true;
}
static KFunc* kfuncOf(Function* F)
{
    KFunc*& k = gFuncs[F];
    if (!k)
    {
        k = new KFunc();
        k->F = F;
    }
    if (!k->decoded)
        decode(k);
    return k;
}

// ---- interpretation ------------------------------------------------------------------------------------
static inline Ref opv(State& s, const KInst& k, unsigned i)
{
    int o = k.ops[i];
    if (o < 0)
        return gConsts[-1 - o];
    Ref r = s.stack.back().regs[o];
    if (!r)
        fatal("use of unset register in " + demangle(s.stack.back().kf->F->getName().str()));
    return r;
}
static void jump(State& s, int fromBB, int toBB)
{
    Frame& f = s.stack.back();
    int pc = f.kf->bbStart[toBB];
    std::vector<std::pair<int, Ref>> upd;
    while (f.kf->insts[pc].opc == Instruction::PHI)
    {
        const KInst& k = f.kf->insts[pc];
        bool ok = false;
        for (size_t j = 0; j < k.incBB.size(); ++j)
            if (k.incBB[j] == fromBB)
            {
                upd.push_back({k.dest, opv(s, k, (unsigned)j)});
                ok = true;
                break;
            }
        if (!ok)
            fatal("phi without matching predecessor");
        ++pc;
    }
    for (auto& u : upd)
        f.regs[u.first] = u.second;
    f.pc = pc;
}
static void setDest(State& s, const KInst& k, Ref v)
{
    if (k.dest >= 0)
        s.stack.back().regs[k.dest] = v;
}
static void popFrame(State& s)
{
    for (uint32_t id : s.stack.back().allocas)
        s.objs[id - gFirstDyn] = ObjPtr();
    s.stack.pop_back();
}
static void pushFrame(State& s, Function* F, const std::vector<Ref>& args)
{
    if (s.stack.size() > 800)
        killViolation(s, "stack-overflow", "call depth exceeds 800 frames");
    KFunc* kf = kfuncOf(F);
    kf->executed = true;
    ++kf->calls;
    s.stack.emplace_back();
    Frame& f = s.stack.back();
    f.kf = kf;
    f.regs.assign(kf->nregs, nullptr);
    size_t i = 0;
    for (auto& a : F->args())
    {
        if (i >= args.size())
            fatal("too few arguments calling " + F->getName().str());
        f.regs[i] = args[i];
        if (a.hasByValAttr())
        {
            uint64_t sz = DL->getTypeAllocSize(a.getParamByValType());
            uint64_t n = allocObj(s, sz, K_STACK, "byval", true);
            uint32_t id = n >> 32;
            f.allocas.push_back(id);
            uint64_t src = concretize(s, args[i]);
            Obj* so = peek(s, src >> 32);
            if (!inBounds(so, src, sz))
                killViolation(s, "invalid-read", describe(s, src));
            Obj* d = writable(s, id);
            uint64_t off = (src & 0xffffffff) - BASE_OFF;
            memcpy(d->conc.data(), so->conc.data() + off, sz);
            memcpy(d->st.data(), so->st.data() + off, sz);
            if (!so->sym.empty())
                d->sym.assign(so->sym.begin() + (long)off, so->sym.begin() + (long)(off + sz));
            f.regs[i] = mkConst(n, 64);
        }
        ++i;
    }
    f.pc = 0;
}
// finish a call instruction in the top frame with a result
static void finishCall(State& s, Ref v)
{
    Frame& f = s.stack.back();
    const KInst& k = f.kf->insts[f.pc];
    if (k.dest >= 0)
    {
        if (!v)
            fatal("missing return value");
        f.regs[k.dest] = v;
    }
    if (k.opc == Instruction::Invoke)
        jump(s, k.bb, k.succ[0]);
    else
        ++f.pc;
}
static void doReturn(State& s, Ref v)
{
    popFrame(s);
    if (s.stack.empty())
        return;
    finishCall(s, v);
}

// ---- exceptions ----------------------------------------------------------------------------------------
static uint64_t rd64(State& s, uint64_t a)
{
    Ref r = loadBytes(s, mkConst(a, 64), 8);
    if (!r->isConst())
        fatal("symbolic type information");
    return (uint64_t)r->v;
}
static uint32_t rd32(State& s, uint64_t a)
{
    Ref r = loadBytes(s, mkConst(a, 64), 4);
    if (!r->isConst())
        fatal("symbolic type information");
    return (uint32_t)r->v;
}
static uint64_t gVtClass, gVtSi, gVtVmi;
static std::map<uint64_t, std::string> gTypeInfoName;
static std::string tiName(uint64_t ti)
{
    auto it = gTypeInfoName.find(ti);
    return it == gTypeInfoName.end() ? "?" : demangle(it->second);
}
// is thrown type t (or a public base of it) equal to c; *off receives the base offset
static bool tiMatch(State& s, uint64_t t, uint64_t c, int64_t& off)
{
    if (t == c)
        return true;
    if (gExternData.count(t))
        return false;
    uint64_t vt = rd64(s, t);
    if (vt == gVtSi + 16)
        return tiMatch(s, rd64(s, t + 16), c, off);
    if (vt == gVtVmi + 16)
    {
        uint32_t n = rd32(s, t + 20);
        for (uint32_t i = 0; i < n; ++i)
        {
            uint64_t base = rd64(s, t + 24 + 16 * i);
            int64_t fl = (int64_t)rd64(s, t + 32 + 16 * i);
            if (!(fl & 2) || (fl & 1))
                continue;
            int64_t o2 = 0;
            if (tiMatch(s, base, c, o2))
            {
                off += (fl >> 8) + o2;
                return true;
            }
        }
    }
    return false;
}
static std::map<uint64_t, unsigned> gTypeIds;
static unsigned typeId(uint64_t ti)
{
    auto it = gTypeIds.find(ti);
    if (it != gTypeIds.end())
        return it->second;
    unsigned id = (unsigned)gTypeIds.size() + 2;
    gTypeIds[ti] = id;
    return id;
}
// unwind the top frame's current instruction; the frame holding the throwing call is still on the stack
static void unwind(State& s, uint64_t exn, uint64_t ti)
{
    while (!s.stack.empty())
    {
        Frame& f = s.stack.back();
        const KInst& k = f.kf->insts[f.pc];
        if (k.opc == Instruction::Invoke)
        {
            jump(s, k.bb, k.succ[1]);
            Frame& g = s.stack.back();
            const KInst& lk = g.kf->insts[g.pc];
            auto* lp = dyn_cast<LandingPadInst>(lk.I);
            if (!lp)
                fatal("unwind destination is not a landing pad");
            unsigned sel = 0;
            bool enter = lp->isCleanup();
            for (unsigned i = 0; i < lp->getNumClauses(); ++i)
            {
                if (!lp->isCatch(i))
                {
                    enter = true; // exception specification: treat as terminate
                    sel = ~0u;
                    break;
                }
                Constant* cl = lp->getClause(i);
                if (isa<ConstantPointerNull>(cl))
                {
                    sel = 1;
                    enter = true;
                    break;
                }
                uint64_t ct = (uint64_t)evalConst(cl)->v;
                int64_t off = 0;
                if (tiMatch(s, ti, ct, off))
                {
                    if (off)
                        fatal("catch with base offset");
                    sel = typeId(ct);
                    enter = true;
                    break;
                }
            }
            if (enter)
            {
                g.regs[lk.dest] = mkAgg({mkConst(exn, 64), mkConst(sel, 32)});
                ++g.pc;
                return;
            }
        }
        if (s.stack.size() == 1)
            killViolation(s, "uncaught-exception", "exception of type " + tiName(ti) + " leaves the harness");
        popFrame(s);
    }
}

static std::string cstr(State& s, Ref a)
{
    std::string r;
    if (!a->isConst())
        return "<symbolic>";
    uint64_t p = (uint64_t)a->v;
    for (int i = 0; i < 400; ++i)
    {
        Obj* o = peek(s, p >> 32);
        if (!inBounds(o, p, 1))
            break;
        Ref b = readN(s, p >> 32, (p & 0xffffffff) - BASE_OFF, 1);
        if (!b->isConst() || b->v == 0)
            break;
        r += (char)b->v;
        ++p;
    }
    return r;
}

static Ref newInput(State& s, const std::string& name, unsigned w)
{
    if (gConcrete)
    {
        uint64_t v = gConcretePos < gConcreteIn.size() ? gConcreteIn[gConcretePos] : 0;
        ++gConcretePos;
        return mkConst(v, w);
    }
    return freshSym(name, w, s.symOrd++, false);
}

static void copyMem(State& s, uint64_t d, uint64_t src, uint64_t n)
{
    if (n == 0)
        return;
    Obj* so = peek(s, src >> 32);
    if (!inBounds(so, src, n))
        killViolation(s, "invalid-read", "memcpy of " + std::to_string(n) + " bytes from " + describe(s, src));
    Obj* dq = peek(s, d >> 32);
    if (!inBounds(dq, d, n))
        killViolation(s, "invalid-write", "memcpy of " + std::to_string(n) + " bytes to " + describe(s, d));
    if (dq->ro || (d >> 32) < gFirstDyn)
        killViolation(s, "invalid-write", "memcpy to read-only " + describe(s, d));
    uint64_t so_ = (src & 0xffffffff) - BASE_OFF, do_ = (d & 0xffffffff) - BASE_OFF;
    Obj* dd = writable(s, d >> 32);
    so = peek(s, src >> 32);
    memmove(dd->conc.data() + do_, so->conc.data() + so_, n);
    memmove(dd->st.data() + do_, so->st.data() + so_, n);
    if (!so->sym.empty())
    {
        if (dd->sym.empty())
            dd->sym.assign(dd->size, nullptr);
        memmove(dd->sym.data() + do_, so->sym.data() + so_, n * sizeof(Ref));
    }
}

static Ref elementwise(Ref a, Ref b, Ref (*f)(Op, Ref, Ref), Op op)
{
    if (a->op == Op::Agg)
    {
        std::vector<Ref> el;
        for (uint32_t i = 0; i < a->aux; ++i)
            el.push_back(f(op, a->elems[i], b->elems[i]));
        return mkAgg(el);
    }
    return f(op, a, b);
}
template <typename F>
static Ref map1(Ref a, F f)
{
    if (a->op == Op::Agg)
    {
        std::vector<Ref> el;
        for (uint32_t i = 0; i < a->aux; ++i)
            el.push_back(f(a->elems[i]));
        return mkAgg(el);
    }
    return f(a);
}
template <typename F>
static Ref map2(Ref a, Ref b, F f)
{
    if (a->op == Op::Agg)
    {
        std::vector<Ref> el;
        for (uint32_t i = 0; i < a->aux; ++i)
            el.push_back(f(a->elems[i], b->elems[i]));
        return mkAgg(el);
    }
    return f(a, b);
}
static Ref icmp(CmpInst::Predicate p, Ref a, Ref b)
{
    switch (p)
    {
    case CmpInst::ICMP_EQ: return mkEq(a, b);
    case CmpInst::ICMP_NE: return mkNot1(mkEq(a, b));
    case CmpInst::ICMP_ULT: return mkBin(Op::Ult, a, b);
    case CmpInst::ICMP_ULE: return mkBin(Op::Ule, a, b);
    case CmpInst::ICMP_UGT: return mkBin(Op::Ult, b, a);
    case CmpInst::ICMP_UGE: return mkBin(Op::Ule, b, a);
    case CmpInst::ICMP_SLT: return mkBin(Op::Slt, a, b);
    case CmpInst::ICMP_SLE: return mkBin(Op::Sle, a, b);
    case CmpInst::ICMP_SGT: return mkBin(Op::Slt, b, a);
    case CmpInst::ICMP_SGE: return mkBin(Op::Sle, b, a);
    default: fatal("icmp predicate"); return nullptr;
    }
}
static Ref ctz(Ref x, bool fromTop)
{
    // index of first set bit; width when zero
    Ref r = mkConst(x->w, x->w);
    for (unsigned i = 0; i < x->w; ++i)
    {
        unsigned bit = fromTop ? i : x->w - 1 - i;
        // last assignment wins: iterate from the farthest to the nearest
        unsigned n = fromTop ? x->w - 1 - bit : bit;
        r = mkIte(mkExtract(x, bit, 1), mkConst(n, x->w), r);
    }
    return r;
}

// returns true when the instruction was completed by the handler (pc already moved)
static bool callIntrinsic(State& s, const KInst& k);
static bool callExternal(State& s, const KInst& k, Function* F);

static void execCall(State& s, const KInst& k)
{
    if (k.intr)
    {
        callIntrinsic(s, k);
        return;
    }
    auto* cb = cast<CallBase>(k.I);
    if (cb->isInlineAsm())
    {
        // used only as an optimisation barrier
        if (k.dest >= 0)
            fatal("inline asm with a result");
        finishCall(s, nullptr);
        return;
    }
    Function* F = k.callee;
    size_t nargs = cb->arg_size();
    if (!F)
    {
        Ref t = opv(s, k, (unsigned)nargs);
        uint64_t a = concretize(s, t);
        auto it = gFuncById.find((uint32_t)(a >> 32));
        if (it == gFuncById.end() || (a & 0xffffffff) != BASE_OFF)
            killViolation(s, "invalid-call", "call through " + describe(s, a));
        F = it->second;
        if (F->isIntrinsic())
            fatal("indirect intrinsic call");
    }
    if (F->isDeclaration())
    {
        callExternal(s, k, F);
        return;
    }
    std::vector<Ref> args;
    for (size_t i = 0; i < nargs; ++i)
        args.push_back(opv(s, k, (unsigned)i));
    pushFrame(s, F, args);
}

static bool callIntrinsic(State& s, const KInst& k)
{
    auto A = [&](unsigned i) { return opv(s, k, i); };
    switch (k.intr)
    {
    case Intrinsic::lifetime_start:
    case Intrinsic::lifetime_end:
    case Intrinsic::dbg_declare:
    case Intrinsic::dbg_value:
    case Intrinsic::dbg_label:
    case Intrinsic::assume:
    case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::donothing:
    case Intrinsic::invariant_end:
    case Intrinsic::stackrestore:
    case Intrinsic::prefetch:
        finishCall(s, k.dest >= 0 ? mkConst(0, k.w ? k.w : 1) : nullptr);
        return true;
    case Intrinsic::invariant_start:
    case Intrinsic::stacksave:
        finishCall(s, mkConst(0, 64));
        return true;
    case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group:
    case Intrinsic::expect:
    case Intrinsic::ssa_copy:
    case Intrinsic::annotation:
    case Intrinsic::ptr_annotation:
    case Intrinsic::threadlocal_address:
    case Intrinsic::expect_with_probability:
        finishCall(s, A(0));
        return true;
    case Intrinsic::is_constant: finishCall(s, mkConst(0, 1)); return true;
    case Intrinsic::objectsize: finishCall(s, mkConst(A(1)->v ? 0 : ~(u128)0, k.w)); return true;
    case Intrinsic::memcpy:
    case Intrinsic::memmove:
    case Intrinsic::memcpy_inline:
    {
        uint64_t n = concretize(s, A(2));
        if (n)
        {
            uint64_t d = concretize(s, A(0)), q = concretize(s, A(1));
            copyMem(s, d, q, n);
        }
        finishCall(s, nullptr);
        return true;
    }
    case Intrinsic::memset:
    {
        uint64_t n = concretize(s, A(2));
        if (n)
        {
            uint64_t d = concretize(s, A(0));
            Obj* o = peek(s, d >> 32);
            if (!inBounds(o, d, n))
                killViolation(s, "invalid-write", "memset of " + std::to_string(n) + " bytes at " + describe(s, d));
            if (o->ro || (d >> 32) < gFirstDyn)
                killViolation(s, "invalid-write", "memset of read-only " + describe(s, d));
            Ref v = A(1);
            uint64_t off = (d & 0xffffffff) - BASE_OFF;
            if (v->isConst())
            {
                o = writable(s, d >> 32);
                memset(o->conc.data() + off, (int)v->v, n);
                memset(o->st.data() + off, 0, n);
            }
            else
                for (uint64_t i = 0; i < n; ++i)
                    writeN(s, d >> 32, off + i, v);
        }
        finishCall(s, nullptr);
        return true;
    }
    case Intrinsic::trap:
    case Intrinsic::debugtrap: killViolation(s, "trap", "llvm.trap reached");
    case Intrinsic::ubsantrap:
        killViolation(s, "undefined-behaviour", "sanitizer check " + std::to_string((unsigned)A(0)->v) + " failed");
    case Intrinsic::eh_typeid_for:
    {
        finishCall(s, mkConst(typeId((uint64_t)A(0)->v), 32));
        return true;
    }
    case Intrinsic::umul_with_overflow:
    case Intrinsic::smul_with_overflow:
    case Intrinsic::uadd_with_overflow:
    case Intrinsic::sadd_with_overflow:
    case Intrinsic::usub_with_overflow:
    case Intrinsic::ssub_with_overflow:
    {
        Ref a = A(0), b = A(1);
        unsigned w = a->w;
        bool sgn = k.intr == Intrinsic::smul_with_overflow || k.intr == Intrinsic::sadd_with_overflow ||
                k.intr == Intrinsic::ssub_with_overflow;
        Op op = (k.intr == Intrinsic::umul_with_overflow || k.intr == Intrinsic::smul_with_overflow) ? Op::Mul
                : (k.intr == Intrinsic::uadd_with_overflow || k.intr == Intrinsic::sadd_with_overflow) ? Op::Add
                                                                                                       : Op::Sub;
        Ref r = mkBin(op, a, b), ov;
        if (op == Op::Mul)
        {
            if (w > 64)
                fatal("wide multiply overflow");
            Ref wr = mkBin(op, sgn ? mkSExt(a, 2 * w) : mkZExt(a, 2 * w), sgn ? mkSExt(b, 2 * w) : mkZExt(b, 2 * w));
            ov = mkNot1(mkEq(wr, sgn ? mkSExt(r, 2 * w) : mkZExt(r, 2 * w)));
        }
        else if (!sgn)
            ov = op == Op::Add ? mkBin(Op::Ult, r, a) : mkBin(Op::Ult, a, b);
        else
        {
            Ref x = mkSExt(a, w + 1), y = mkSExt(b, w + 1);
            ov = mkNot1(mkEq(mkBin(op, x, y), mkSExt(r, w + 1)));
        }
        finishCall(s, mkAgg({r, ov}));
        return true;
    }
    case Intrinsic::umin: finishCall(s, map2(A(0), A(1), [&s](Ref a, Ref b) { return mkIte(known(s, mkBin(Op::Ult, a, b)), a, b); })); return true;
    case Intrinsic::umax: finishCall(s, map2(A(0), A(1), [&s](Ref a, Ref b) { return mkIte(known(s, mkBin(Op::Ult, a, b)), b, a); })); return true;
    case Intrinsic::smin: finishCall(s, map2(A(0), A(1), [&s](Ref a, Ref b) { return mkIte(known(s, mkBin(Op::Slt, a, b)), a, b); })); return true;
    case Intrinsic::smax: finishCall(s, map2(A(0), A(1), [&s](Ref a, Ref b) { return mkIte(known(s, mkBin(Op::Slt, a, b)), b, a); })); return true;
    case Intrinsic::abs:
        finishCall(s, map1(A(0), [&s](Ref a) { return mkIte(known(s, mkExtract(a, a->w - 1, 1)), mkBin(Op::Sub, mkConst(0, a->w), a), a); }));
        return true;
    case Intrinsic::usub_sat:
        finishCall(s, map2(A(0), A(1), [](Ref a, Ref b) { return mkIte(mkBin(Op::Ult, a, b), mkConst(0, a->w), mkBin(Op::Sub, a, b)); }));
        return true;
    case Intrinsic::uadd_sat:
        finishCall(s, map2(A(0), A(1), [](Ref a, Ref b) {
            Ref r = mkBin(Op::Add, a, b);
            return mkIte(mkBin(Op::Ult, r, a), mkConst(maskOf(a->w), a->w), r);
        }));
        return true;
    case Intrinsic::bswap:
        finishCall(s, map1(A(0), [](Ref a) {
            Ref r = mkExtract(a, 0, 8);
            for (unsigned i = 8; i < a->w; i += 8)
                r = mkConcat(r, mkExtract(a, i, 8));
            return r;
        }));
        return true;
    case Intrinsic::bitreverse:
        finishCall(s, map1(A(0), [](Ref a) {
            Ref r = mkExtract(a, 0, 1);
            for (unsigned i = 1; i < a->w; ++i)
                r = mkConcat(r, mkExtract(a, i, 1));
            return r;
        }));
        return true;
    case Intrinsic::ctpop:
        finishCall(s, map1(A(0), [](Ref a) {
            Ref r = mkConst(0, a->w);
            for (unsigned i = 0; i < a->w; ++i)
                r = mkBin(Op::Add, r, mkZExt(mkExtract(a, i, 1), a->w));
            return r;
        }));
        return true;
    case Intrinsic::ctlz: finishCall(s, map1(A(0), [](Ref a) { return ctz(a, true); })); return true;
    case Intrinsic::cttz: finishCall(s, map1(A(0), [](Ref a) { return ctz(a, false); })); return true;
    case Intrinsic::fshl:
    case Intrinsic::fshr:
    {
        Ref a = A(0), b = A(1), c = A(2);
        unsigned w = a->w;
        Ref sh = mkBin(Op::URem, c, mkConst(w, w));
        Ref inv = mkBin(Op::Sub, mkConst(w, w), sh);
        Ref r;
        if (k.intr == Intrinsic::fshl)
            r = mkIte(mkEq(sh, mkConst(0, w)), a, mkOr(mkBin(Op::Shl, a, sh), mkBin(Op::LShr, b, inv)));
        else
            r = mkIte(mkEq(sh, mkConst(0, w)), b, mkOr(mkBin(Op::Shl, a, inv), mkBin(Op::LShr, b, sh)));
        finishCall(s, r);
        return true;
    }
    case Intrinsic::fabs: finishCall(s, map1(A(0), [](Ref a) { return mkZExt(mkExtract(a, 0, a->w - 1), a->w); })); return true;
    case Intrinsic::copysign: {
        Ref a = A(0), b = A(1);
        finishCall(s, mkConcat(mkExtract(b, b->w - 1, 1), mkExtract(a, 0, a->w - 1)));
        return true;
    }
    case Intrinsic::rint:
    case Intrinsic::nearbyint:
    case Intrinsic::roundeven: finishCall(s, mkFp(Op::FRound, k.w, A(0), nullptr, 0)); return true;
    case Intrinsic::floor: finishCall(s, mkFp(Op::FRound, k.w, A(0), nullptr, 1)); return true;
    case Intrinsic::ceil: finishCall(s, mkFp(Op::FRound, k.w, A(0), nullptr, 2)); return true;
    case Intrinsic::trunc: finishCall(s, mkFp(Op::FRound, k.w, A(0), nullptr, 3)); return true;
    case Intrinsic::round: finishCall(s, mkFp(Op::FRound, k.w, A(0), nullptr, 4)); return true;
    case Intrinsic::sqrt: finishCall(s, mkFp(Op::FSqrt, k.w, A(0), nullptr, 0)); return true;
    case Intrinsic::fmuladd:
        finishCall(s, mkFp(Op::FAdd, k.w, mkFp(Op::FMul, k.w, A(0), A(1), 0), A(2), 0));
        return true;
    case Intrinsic::is_fpclass:
    {
        Ref a = A(0);
        unsigned m = (unsigned)A(1)->v, w = a->w, mant = w == 32 ? 23 : 52;
        Ref mag = mkExtract(a, 0, w - 1), sg = mkExtract(a, w - 1, 1);
        Ref ex = mkExtract(a, mant, w - 1 - mant), fr = mkExtract(a, 0, mant);
        Ref exAll = mkEq(ex, mkConst(~(u128)0, ex->w)), ex0 = mkEq(ex, mkConst(0, ex->w));
        Ref fr0 = mkEq(fr, mkConst(0, mant)), q = mkExtract(a, mant - 1, 1);
        Ref nan = mkAnd(exAll, mkNot1(fr0));
        Ref r = mkFalse();
        auto add = [&](unsigned bit, Ref c) { if (m & bit) r = mkOr(r, c); };
        add(1, mkAnd(nan, mkNot1(q)));
        add(2, mkAnd(nan, q));
        Ref inf = mkAnd(exAll, fr0), zero = mkEq(mag, mkConst(0, w - 1)), sub = mkAnd(ex0, mkNot1(fr0));
        Ref norm = mkAnd(mkNot1(exAll), mkNot1(ex0));
        add(4, mkAnd(inf, sg));
        add(8, mkAnd(norm, sg));
        add(16, mkAnd(sub, sg));
        add(32, mkAnd(zero, sg));
        add(64, mkAnd(zero, mkNot1(sg)));
        add(128, mkAnd(sub, mkNot1(sg)));
        add(256, mkAnd(norm, mkNot1(sg)));
        add(512, mkAnd(inf, mkNot1(sg)));
        finishCall(s, r);
        return true;
    }
    case Intrinsic::load_relative:
    {
        Ref base = A(0);
        Ref off = loadBytes(s, mkBin(Op::Add, base, mkZExtOrTrunc(A(1), 64)), 4);
        finishCall(s, mkBin(Op::Add, base, mkSExt(off, 64)));
        return true;
    }
    case Intrinsic::vector_reduce_add:
    case Intrinsic::vector_reduce_or:
    case Intrinsic::vector_reduce_and:
    case Intrinsic::vector_reduce_xor:
    {
        Ref a = A(0);
        Op op = k.intr == Intrinsic::vector_reduce_add ? Op::Add : k.intr == Intrinsic::vector_reduce_or ? Op::Or
                : k.intr == Intrinsic::vector_reduce_and                                                 ? Op::And
                                                                                                         : Op::Xor;
        Ref r = a->elems[0];
        for (uint32_t i = 1; i < a->aux; ++i)
            r = mkBin(op, r, a->elems[i]);
        finishCall(s, r);
        return true;
    }
    default: fatal("unsupported intrinsic " + k.callee->getName().str() + " in " + s.stack.back().kf->F->getName().str());
    }
    return true;
}

static ObjKind kindFromInt(uint64_t k) { return k == 1 ? K_NEW : k == 2 ? K_NEWARR : k == 3 ? K_EXN : K_MALLOC; }

static bool callExternal(State& s, const KInst& k, Function* F)
{
    auto A = [&](unsigned i) { return opv(s, k, i); };
    StringRef n = F->getName();
    if (n == "__zs_alloc")
    {
        Ref sz = A(0);
        ObjKind kind = kindFromInt((uint64_t)A(1)->v);
        bool big = decide(s, mkBin(Op::Ult, mkConst(s.allocLimit, 64), sz));
        if (big)
        {
            if (s.allocLimitIsViolation)
                killViolation(s, "allocation-too-large", "requested " + std::to_string((uint64_t)evalExpr(sz, s.model)) +
                                " bytes, bound is " + std::to_string(s.allocLimit));
            ++gStats.allocRefused;
            finishCall(s, mkConst(0, 64));
            return true;
        }
        uint64_t v = concretize(s, sz);
        ++s.nAlloc;
        uint64_t a = allocObj(s, v, kind, "heap", true);
        finishCall(s, mkConst(a, 64));
        return true;
    }
    if (n == "__zs_free")
    {
        uint64_t p = concretize(s, A(0));
        ObjKind kind = kindFromInt((uint64_t)A(1)->v);
        if (p)
        {
            Obj* o = peek(s, p >> 32);
            if (!o || (p & 0xffffffff) != BASE_OFF || (o->kind != K_MALLOC && o->kind != K_NEW && o->kind != K_NEWARR && o->kind != K_EXN))
                killViolation(s, "invalid-free", "free of " + describe(s, p));
            if (o->kind != kind)
                killViolation(s, "alloc-dealloc-mismatch", std::string("allocated by ") + kindName[o->kind] + ", released as " + kindName[kind]);
            Ref szr = A(2);
            if (!(szr->isConst() && (uint64_t)szr->v == ~0ull))
            {
                Ref ok = mkEq(szr, mkConst(o->size, 64));
                if (!decide(s, ok))
                    killViolation(s, "alloc-dealloc-mismatch", "sized deallocation with a wrong size, object has " + std::to_string(o->size));
            }
            s.objs[(p >> 32) - gFirstDyn] = ObjPtr();
            ++s.nFree;
        }
        finishCall(s, nullptr);
        return true;
    }
    if (n == "__zs_unwind")
    {
        uint64_t e = (uint64_t)A(0)->v, t = (uint64_t)A(1)->v;
        s.exnObj = e;
        s.exnType = t;
        popFrame(s); // frame of __cxa_throw / __cxa_rethrow
        unwind(s, e, t);
        return true;
    }
    if (n == "__zs_terminate")
    {
        std::string m = cstr(s, A(0));
        killViolation(s, "terminate", m + (m == "std::terminate" && s.exnType ? " (last exception " + tiName(s.exnType) + ")" : ""));
    }
    if (n == "zs_bytes")
    {
        uint64_t p = concretize(s, A(0)), cnt = concretize(s, A(1));
        std::string nm = cstr(s, A(2));
        Input in;
        in.name = nm;
        in.w = 8;
        for (uint64_t i = 0; i < cnt; ++i)
        {
            Ref e = newInput(s, nm, 8);
            in.bytes.push_back(e);
            storeBytes(s, mkConst(p + i, 64), e);
        }
        s.inputs.push_back(in);
        finishCall(s, nullptr);
        return true;
    }
    if (n == "zs_u64" || n == "zs_u32" || n == "zs_u16" || n == "zs_u8" || n == "zs_bool")
    {
        unsigned w = n == "zs_u64" ? 64 : n == "zs_u32" ? 32 : n == "zs_u16" ? 16 : n == "zs_u8" ? 8 : 1;
        std::string nm = cstr(s, A(0));
        Ref e = newInput(s, nm, w);
        s.inputs.push_back({nm, {e}, w});
        finishCall(s, mkZExt(e, k.w));
        return true;
    }
    if (n == "zs_choose")
    {
        // a value in [lo, hi], concrete on every path
        uint64_t lo = concretize(s, A(0)), hi = concretize(s, A(1));
        std::string nm = cstr(s, A(2));
        Ref e;
        if (gConcrete)
        {
            e = newInput(s, nm, 64);
            uint64_t v = (uint64_t)e->v;
            if (v < lo || v > hi)
                throw PathEnd();
            finishCall(s, e);
            return true;
        }
        if (lo > hi)
            throw PathEnd();
        uint32_t ord = s.symOrd++;
        for (uint64_t v = hi; v > lo; --v)
        {
            State* t = new State(s);
            Ref c = mkConst(v, 64);
            t->inputs.push_back({nm, {c}, 64});
            std::vector<Frame>& st = t->stack;
            (void)st;
            finishCall(*t, c);
            gWork.push_back(t);
            ++gStats.forks;
        }
        (void)ord;
        Ref c = mkConst(lo, 64);
        s.inputs.push_back({nm, {c}, 64});
        finishCall(s, c);
        return true;
    }
    if (n == "zs_assume")
    {
        Ref c = mkExtract(A(0), 0, 1);
        if (c->isConst())
        {
            if (!c->v)
            {
                ++gStats.assumeKilled;
                throw PathEnd();
            }
        }
        else
        {
            Sat r = solverCheck(s.cons, c, s.model);
            if (r == Sat::No)
            {
                ++gStats.assumeKilled;
                throw PathEnd();
            }
            if (r == Sat::Unknown)
            {
                incomplete("solver returned unknown");
                throw PathEnd();
            }
            addCons(s, c);
        }
        finishCall(s, nullptr);
        return true;
    }
    if (n == "zs_assert")
    {
        Ref c = mkExtract(A(0), 0, 1);
        std::string m = cstr(s, A(1));
        ++gStats.asserts;
        ++gStats.assertMsgs[m];
        if (c->isConst())
        {
            if (!c->v)
                killViolation(s, "assertion", m);
            ++gStats.assertTrivial;
        }
        else
        {
            ++gStats.assertSolved;
            std::vector<uint64_t> mdl = s.model;
            Sat r = solverCheck(s.cons, mkNot1(c), mdl);
            if (r == Sat::Yes)
            {
                violation(s, "assertion", m, &mdl);
                r = solverCheck(s.cons, c, s.model);
                if (r != Sat::Yes)
                    throw PathEnd();
                addCons(s, c);
            }
            else if (r == Sat::Unknown)
            {
                incomplete("solver returned unknown for assertion: " + m);
                throw PathEnd();
            }
        }
        finishCall(s, nullptr);
        return true;
    }
    if (n == "zs_reach")
    {
        ++gStats.reach[cstr(s, A(0))];
        finishCall(s, nullptr);
        return true;
    }
    if (n == "zs_stop")
    {
        // end this path quietly
        s.stack.clear();
        s.pendingPos = s.pending.size();
        return true;
    }
    if (n == "zs_param")
    {
        std::string nm = cstr(s, A(0));
        auto it = gParams.find(nm);
        if (it == gParams.end())
            fatal("missing parameter " + nm);
        finishCall(s, mkConst(it->second, 64));
        return true;
    }
    if (n == "zs_concretize")
    {
        finishCall(s, mkConst(concretize(s, A(0)), 64));
        return true;
    }
    if (n == "zs_heap_live")
    {
        finishCall(s, mkConst(s.nAlloc - s.nFree, 64));
        return true;
    }
    if (n == "zs_alloc_limit")
    {
        s.allocLimit = concretize(s, A(0));
        s.allocLimitIsViolation = concretize(s, A(1)) != 0;
        finishCall(s, nullptr);
        return true;
    }
    if (n == "zs_out")
    {
        Ref v = A(0);
        if (gConcrete)
            gStats.outs.push_back(std::to_string((uint64_t)evalExpr(v, s.model)));
        finishCall(s, nullptr);
        return true;
    }
    if (n == "zs_native")
    {
        finishCall(s, mkConst(0, k.w));
        return true;
    }
    if (n == "memcmp" || n == "bcmp")
    {
        uint64_t cnt = concretize(s, A(2));
        if (cnt == 0)
        {
            finishCall(s, mkConst(0, 32));
            return true;
        }
        uint64_t a = concretize(s, A(0)), b = concretize(s, A(1));
        if (!inBounds(peek(s, a >> 32), a, cnt))
            killViolation(s, "invalid-read", "memcmp of " + std::to_string(cnt) + " bytes at " + describe(s, a));
        if (!inBounds(peek(s, b >> 32), b, cnt))
            killViolation(s, "invalid-read", "memcmp of " + std::to_string(cnt) + " bytes at " + describe(s, b));
        Ref r = mkConst(0, 32);
        for (uint64_t i = cnt; i-- > 0;)
        {
            Ref x = readN(s, a >> 32, (a & 0xffffffff) - BASE_OFF + i, 1), y = readN(s, b >> 32, (b & 0xffffffff) - BASE_OFF + i, 1);
            r = mkIte(mkEq(x, y), r, mkIte(mkBin(Op::Ult, x, y), mkConst(~(u128)0, 32), mkConst(1, 32)));
        }
        finishCall(s, r);
        return true;
    }
    if (n == "memcpy" || n == "memmove")
    {
        uint64_t c = concretize(s, A(2)), d = concretize(s, A(0)), q = concretize(s, A(1));
        copyMem(s, d, q, c);
        finishCall(s, mkConst(d, 64));
        return true;
    }
    if (n == "__cxa_atexit" || n == "__cxa_thread_atexit")
    {
        finishCall(s, mkConst(0, 32));
        return true;
    }
    killViolation(s, "unsupported-external", "call of external function " + n.str());
    return true;
}

static Op binOp(unsigned opc)
{
    switch (opc)
    {
    case Instruction::Add: return Op::Add;
    case Instruction::Sub: return Op::Sub;
    case Instruction::Mul: return Op::Mul;
    case Instruction::UDiv: return Op::UDiv;
    case Instruction::SDiv: return Op::SDiv;
    case Instruction::URem: return Op::URem;
    case Instruction::SRem: return Op::SRem;
    case Instruction::And: return Op::And;
    case Instruction::Or: return Op::Or;
    case Instruction::Xor: return Op::Xor;
    case Instruction::Shl: return Op::Shl;
    case Instruction::LShr: return Op::LShr;
    default: return Op::AShr;
    }
}

static void step(State& s)
{
    Frame& f = s.stack.back();
    KInst& k = f.kf->insts[f.pc];
    k.executed = true;
    ++gStats.instrs;
    ++s.steps;
    switch (k.opc)
    {
    case Instruction::Ret:
    {
        Ref v = k.ops.empty() ? nullptr : opv(s, k, 0);
        doReturn(s, v);
        return;
    }
    case Instruction::Br:
    {
        if (k.ops.empty())
        {
            jump(s, k.bb, k.succ[0]);
            return;
        }
        bool c = decide(s, opv(s, k, 0));
        jump(s, k.bb, c ? k.succ[0] : k.succ[1]);
        return;
    }
    case Instruction::Switch:
    {
        Ref v = opv(s, k, 0);
        if (v->isConst())
        {
            for (size_t i = 0; i < k.caseVals.size(); ++i)
                if (mkConst(k.caseVals[i], v->w)->v == v->v)
                {
                    jump(s, k.bb, k.succ[i + 1]);
                    return;
                }
            jump(s, k.bb, k.succ[0]);
            return;
        }
        // group case values by target
        s.model.resize(gVars.size(), 0);
        u128 mv = evalExpr(v, s.model);
        int tgt = k.succ[0];
        for (size_t i = 0; i < k.caseVals.size(); ++i)
            if (mkConst(k.caseVals[i], v->w)->v == mv)
                tgt = k.succ[i + 1];
        Ref c = mkFalse();
        if (tgt == k.succ[0])
        {
            c = mkTrue();
            for (size_t i = 0; i < k.caseVals.size(); ++i)
                if (k.succ[i + 1] != tgt)
                    c = mkAnd(c, mkNot1(mkEq(v, mkConst(k.caseVals[i], v->w))));
        }
        else
            for (size_t i = 0; i < k.caseVals.size(); ++i)
                if (k.succ[i + 1] == tgt)
                    c = mkOr(c, mkEq(v, mkConst(k.caseVals[i], v->w)));
        decide(s, c);
        jump(s, k.bb, tgt);
        return;
    }
    case Instruction::Call:
    case Instruction::Invoke: execCall(s, k); return;
    case Instruction::Unreachable: killViolation(s, "undefined-behaviour", "unreachable instruction executed");
    case Instruction::Resume:
    {
        Ref v = opv(s, k, 0);
        uint64_t e = (uint64_t)v->elems[0]->v;
        // the type is recorded by the runtime in front of the exception object
        uint64_t t = rd64(s, e - 32);
        popFrame(s);
        if (s.stack.empty())
            killViolation(s, "uncaught-exception", "exception of type " + tiName(t) + " leaves the harness");
        unwind(s, e, t);
        return;
    }
    case Instruction::Alloca:
    {
        auto* ai = cast<AllocaInst>(k.I);
        uint64_t sz = DL->getTypeAllocSize(ai->getAllocatedType());
        uint64_t cnt = concretize(s, opv(s, k, 0));
        uint64_t a = allocObj(s, sz * cnt, K_STACK, ai->getName().str(), true);
        f.allocas.push_back(a >> 32);
        f.regs[k.dest] = mkConst(a, 64);
        break;
    }
    case Instruction::Load: setDest(s, k, loadT(s, k.I->getType(), opv(s, k, 0))); break;
    case Instruction::Store: storeT(s, k.I->getOperand(0)->getType(), opv(s, k, 1), opv(s, k, 0)); break;
    case Instruction::GetElementPtr:
    {
        Ref a = opv(s, k, 0);
        if (k.gepOff)
            a = mkBin(Op::Add, a, mkConst((u128)(__int128)k.gepOff, 64));
        for (auto& g : k.gepIdx)
        {
            Ref i = opv(s, k, (unsigned)g.first);
            i = i->w == 64 ? i : i->w < 64 ? mkSExt(i, 64) : mkExtract(i, 0, 64);
            a = mkBin(Op::Add, a, g.second == 1 ? i : mkBin(Op::Mul, i, mkConst((u128)(__int128)g.second, 64)));
        }
        f.regs[k.dest] = a;
        break;
    }
    case Instruction::ICmp:
    {
        auto p = cast<ICmpInst>(k.I)->getPredicate();
        setDest(s, k, map2(opv(s, k, 0), opv(s, k, 1), [p](Ref a, Ref b) { return icmp(p, a, b); }));
        break;
    }
    case Instruction::FCmp:
    {
        unsigned p = cast<FCmpInst>(k.I)->getPredicate();
        setDest(s, k, map2(opv(s, k, 0), opv(s, k, 1), [p](Ref a, Ref b) { return mkFCmp(p, a, b); }));
        break;
    }
    case Instruction::Select:
    {
        Ref c = opv(s, k, 0), a = opv(s, k, 1), b = opv(s, k, 2);
        if (c->op == Op::Agg)
        {
            std::vector<Ref> el;
            for (uint32_t i = 0; i < c->aux; ++i)
                el.push_back(mkIte(c->elems[i], a->elems[i], b->elems[i]));
            setDest(s, k, mkAgg(el));
        }
        else
            setDest(s, k, mkIte(known(s, c), a, b));
        break;
    }
    case Instruction::UDiv:
    case Instruction::SDiv:
    case Instruction::URem:
    case Instruction::SRem:
    {
        Ref b = opv(s, k, 1);
        if (b->op != Op::Agg)
        {
            if (decide(s, mkEq(b, mkConst(0, b->w))))
                killViolation(s, "division-by-zero", "division by zero");
        }
        setDest(s, k, elementwise(opv(s, k, 0), b, mkBin, binOp(k.opc)));
        break;
    }
    case Instruction::Add:
    case Instruction::Sub:
    case Instruction::Mul:
    case Instruction::And:
    case Instruction::Or:
    case Instruction::Xor:
    case Instruction::Shl:
    case Instruction::LShr:
    case Instruction::AShr: setDest(s, k, elementwise(opv(s, k, 0), opv(s, k, 1), mkBin, binOp(k.opc))); break;
    case Instruction::FAdd:
    case Instruction::FSub:
    case Instruction::FMul:
    case Instruction::FDiv:
    {
        Op op = k.opc == Instruction::FAdd ? Op::FAdd : k.opc == Instruction::FSub ? Op::FSub
                : k.opc == Instruction::FMul                                       ? Op::FMul
                                                                                   : Op::FDiv;
        setDest(s, k, map2(opv(s, k, 0), opv(s, k, 1), [op](Ref a, Ref b) { return mkFp(op, a->w, a, b, 0); }));
        break;
    }
    case Instruction::FNeg:
        setDest(s, k, map1(opv(s, k, 0), [](Ref a) { return mkConcat(mkNot1(mkExtract(a, a->w - 1, 1)), mkExtract(a, 0, a->w - 1)); }));
        break;
    case Instruction::FRem: fatal("frem");
    case Instruction::ZExt:
    case Instruction::SExt:
    case Instruction::Trunc:
    {
        unsigned w = k.I->getType()->getScalarSizeInBits();
        unsigned opc = k.opc;
        setDest(s, k, map1(opv(s, k, 0), [w, opc](Ref a) {
            return opc == Instruction::ZExt ? mkZExt(a, w) : opc == Instruction::SExt ? mkSExt(a, w) : mkExtract(a, 0, w);
        }));
        break;
    }
    case Instruction::FPExt: setDest(s, k, mkFp(Op::FPExt, k.w, opv(s, k, 0), nullptr, 0)); break;
    case Instruction::FPTrunc: setDest(s, k, mkFp(Op::FPTrunc, k.w, opv(s, k, 0), nullptr, 0)); break;
    case Instruction::FPToUI: setDest(s, k, mkFp(Op::FPToUI, k.w, opv(s, k, 0), nullptr, 0)); break;
    case Instruction::FPToSI: setDest(s, k, mkFp(Op::FPToSI, k.w, opv(s, k, 0), nullptr, 0)); break;
    case Instruction::UIToFP: setDest(s, k, mkFp(Op::UIToFP, k.w, opv(s, k, 0), nullptr, 0)); break;
    case Instruction::SIToFP: setDest(s, k, mkFp(Op::SIToFP, k.w, opv(s, k, 0), nullptr, 0)); break;
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
    {
        unsigned w = k.w;
        setDest(s, k, map1(opv(s, k, 0), [w](Ref a) { return mkZExtOrTrunc(a, w); }));
        break;
    }
    case Instruction::BitCast:
    {
        Ref a = opv(s, k, 0);
        Type* st = k.I->getOperand(0)->getType();
        Type* dt = k.I->getType();
        if (st->isVectorTy() || dt->isVectorTy())
        {
            Ref flat = a;
            if (a->op == Op::Agg)
            {
                flat = a->elems[0];
                for (uint32_t i = 1; i < a->aux; ++i)
                    flat = mkConcat(a->elems[i], flat);
            }
            if (auto* vt = dyn_cast<FixedVectorType>(dt))
            {
                std::vector<Ref> el;
                unsigned ew = scalarBits(vt->getElementType());
                for (unsigned i = 0; i < vt->getNumElements(); ++i)
                    el.push_back(mkExtract(flat, i * ew, ew));
                setDest(s, k, mkAgg(el));
            }
            else
                setDest(s, k, flat);
        }
        else
            setDest(s, k, a);
        break;
    }
    case Instruction::Freeze: setDest(s, k, opv(s, k, 0)); break;
    case Instruction::ExtractValue:
    {
        Ref a = opv(s, k, 0);
        for (unsigned i : cast<ExtractValueInst>(k.I)->indices())
            a = a->elems[i];
        setDest(s, k, a);
        break;
    }
    case Instruction::InsertValue:
    {
        auto* iv = cast<InsertValueInst>(k.I);
        std::function<Ref(Ref, unsigned)> rec = [&](Ref a, unsigned d) -> Ref {
            if (d == iv->getNumIndices())
                return opv(s, k, 1);
            std::vector<Ref> el(a->elems, a->elems + a->aux);
            el[iv->getIndices()[d]] = rec(el[iv->getIndices()[d]], d + 1);
            return mkAgg(el);
        };
        setDest(s, k, rec(opv(s, k, 0), 0));
        break;
    }
    case Instruction::ExtractElement:
    {
        Ref a = opv(s, k, 0), i = opv(s, k, 1);
        uint64_t ix = concretize(s, i);
        setDest(s, k, a->elems[ix < a->aux ? ix : 0]);
        break;
    }
    case Instruction::InsertElement:
    {
        Ref a = opv(s, k, 0), v = opv(s, k, 1);
        uint64_t ix = concretize(s, opv(s, k, 2));
        std::vector<Ref> el(a->elems, a->elems + a->aux);
        if (ix < el.size())
            el[ix] = v;
        setDest(s, k, mkAgg(el));
        break;
    }
    case Instruction::ShuffleVector:
    {
        Ref a = opv(s, k, 0), b = opv(s, k, 1);
        std::vector<Ref> el;
        for (int m : cast<ShuffleVectorInst>(k.I)->getShuffleMask())
            el.push_back(m < 0 ? mkConst(0, a->elems[0]->w) : m < (int)a->aux ? a->elems[m] : b->elems[m - (int)a->aux]);
        setDest(s, k, mkAgg(el));
        break;
    }
    case Instruction::Fence: break;
    case Instruction::AtomicRMW:
    {
        auto* rmw = cast<AtomicRMWInst>(k.I);
        Ref p = opv(s, k, 0), v = opv(s, k, 1);
        Ref old = loadT(s, k.I->getType(), p);
        Ref nv;
        switch (rmw->getOperation())
        {
        case AtomicRMWInst::Add: nv = mkBin(Op::Add, old, v); break;
        case AtomicRMWInst::Sub: nv = mkBin(Op::Sub, old, v); break;
        case AtomicRMWInst::Xchg: nv = v; break;
        default: fatal("atomicrmw");
        }
        storeT(s, k.I->getType(), p, nv);
        setDest(s, k, old);
        break;
    }
    case Instruction::AtomicCmpXchg:
    {
        Ref p = opv(s, k, 0), c = opv(s, k, 1), nv = opv(s, k, 2);
        Type* t = k.I->getOperand(1)->getType();
        Ref old = loadT(s, t, p);
        Ref eq = mkEq(old, c);
        storeT(s, t, p, mkIte(eq, nv, old));
        setDest(s, k, mkAgg({old, eq}));
        break;
    }
    case Instruction::PHI: fatal("phi executed");
    case Instruction::LandingPad: fatal("landingpad executed");
    default: fatal(std::string("unsupported instruction ") + k.I->getOpcodeName());
    }
    ++s.stack.back().pc;
}

// ---- driver --------------------------------------------------------------------------------------------
static std::string jesc(const std::string& x)
{
    std::string r = "\"";
    for (unsigned char c : x)
    {
        if (c == '"' || c == '\\')
            r += '\\', r += (char)c;
        else if (c == '\n')
            r += "\\n";
        else if (c < 0x20 || c >= 0x7f)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
            r += (char)c;
    }
    return r + "\"";
}

static void samplePath(State& s)
{
    if (gStats.samples.size() >= 3)
        return;
    std::string o = "{";
    bool first = true;
    for (auto& in : s.inputs)
    {
        if (!first)
            o += ", ";
        first = false;
        std::string v;
        for (Ref e : in.bytes)
        {
            char b[32];
            snprintf(b, sizeof b, v.empty() ? "%llx" : " %llx", (unsigned long long)evalExpr(e, s.model));
            v += b;
        }
        o += jesc(in.name) + ": " + jesc(v + (in.bytes.size() && in.bytes[0]->isConst() ? "" : " (symbolic)"));
    }
    gStats.samples.push_back(o + "}");
}

static void report(const char* status)
{
    FILE* o = gOut.empty() ? stdout : fopen(gOut.c_str(), "w");
    if (!o)
        fatal("cannot write " + gOut);
    fprintf(o, "{\n\"status\": \"%s\",\n\"entry\": %s,\n\"params\": {", status, jesc(gEntry).c_str());
    bool first = true;
    for (auto& p : gParams)
    {
        fprintf(o, "%s%s: %llu", first ? "" : ", ", jesc(p.first).c_str(), (unsigned long long)p.second);
        first = false;
    }
    fprintf(o, "},\n\"paths\": %llu, \"forks\": %llu, \"instructions\": %llu, \"assume_killed\": %llu, \"open_states\": %zu,\n",
            (unsigned long long)gStats.paths, (unsigned long long)gStats.forks, (unsigned long long)gStats.instrs,
            (unsigned long long)gStats.assumeKilled, gWork.size());
    fprintf(o, "\"asserts\": %llu, \"asserts_simplified\": %llu, \"asserts_solver\": %llu,\n", (unsigned long long)gStats.asserts,
            (unsigned long long)gStats.assertTrivial, (unsigned long long)gStats.assertSolved);
    fprintf(o, "\"queries\": %llu, \"queries_trivial\": %llu, \"queries_cached\": %llu, \"queries_z3\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu,\n",
            (unsigned long long)gSolver.queries, (unsigned long long)gSolver.trivial, (unsigned long long)gSolver.cached,
            (unsigned long long)gSolver.solved, (unsigned long long)gSolver.sat, (unsigned long long)gSolver.unsat,
            (unsigned long long)gSolver.unknown);
    fprintf(o, "\"solver_seconds\": %.3f, \"solver_max_seconds\": %.3f, \"seconds\": %.3f, \"variables\": %zu, \"expressions\": %zu,\n",
            gSolver.seconds, gSolver.maxSeconds, elapsed(), gVars.size(), exprCount());
    fprintf(o, "\"uninit_reads\": %llu, \"sym_accesses\": %llu, \"concretizations\": %llu, \"alloc_refused\": %llu,\n",
            (unsigned long long)gStats.uninitReads, (unsigned long long)gStats.symReads, (unsigned long long)gStats.concretizations,
            (unsigned long long)gStats.allocRefused);
    fprintf(o, "\"reach\": {");
    first = true;
    for (auto& r : gStats.reach)
    {
        fprintf(o, "%s%s: %llu", first ? "" : ", ", jesc(r.first).c_str(), (unsigned long long)r.second);
        first = false;
    }
    fprintf(o, "},\n\"assertions\": {");
    first = true;
    for (auto& r : gStats.assertMsgs)
    {
        fprintf(o, "%s%s: %llu", first ? "" : ", ", jesc(r.first).c_str(), (unsigned long long)r.second);
        first = false;
    }
    fprintf(o, "},\n\"incomplete\": [");
    first = true;
    for (auto& r : gStats.incomplete)
    {
        fprintf(o, "%s%s", first ? "" : ", ", jesc(r).c_str());
        first = false;
    }
    fprintf(o, "],\n\"outs\": [");
    first = true;
    for (auto& r : gStats.outs)
    {
        fprintf(o, "%s%s", first ? "" : ", ", r.c_str());
        first = false;
    }
    fprintf(o, "],\n\"samples\": [");
    first = true;
    for (auto& r : gStats.samples)
    {
        fprintf(o, "%s%s", first ? "" : ", ", r.c_str());
        first = false;
    }
    fprintf(o, "],\n\"functions\": [");
    // functions of the code under check whose instructions (also inlined ones) were executed
    std::set<std::string> fn;
    DenseMap<const DILocation*, bool> seen;
    for (auto& p : gFuncs)
        if (p.second && p.second->executed)
            for (auto& k : p.second->insts)
                if (k.executed)
                    for (const DILocation* l = k.I->getDebugLoc().get(); l && !seen.lookup(l); l = l->getInlinedAt())
                    {
                        seen[l] = true;
                        if (auto* sp = l->getScope()->getSubprogram())
                        {
                            std::string file = sp->getFilename().str();
                            if (file.find("/runtime/") == std::string::npos)
                                continue;
                            std::string n = sp->getLinkageName().str();
                            if (n.empty())
                                n = sp->getName().str();
                            std::string d = demangle(n);
                            // drop template arguments and parameters: keep the qualified name
                            std::string q;
                            int depth = 0;
                            for (size_t i = 0; i < d.size(); ++i)
                            {
                                char c = d[i];
                                if (d.compare(i, 8, "operator") == 0)
                                {
                                    q += d.substr(i, 40);
                                    break;
                                }
                                if (c == '<') ++depth;
                                else if (c == '>') --depth;
                                else if (c == '(' && depth == 0 && d.compare(i, 22, "(anonymous namespace):") != 0) break;
                                else if (depth == 0) q += c;
                            }
                            size_t sl = file.rfind('/');
                            fn.insert(file.substr(sl + 1) + ": " + q);
                        }
                    }
    first = true;
    for (auto& r : fn)
    {
        fprintf(o, "%s%s", first ? "" : ",\n  ", jesc(r).c_str());
        first = false;
    }
    fprintf(o, "],\n\"violations\": [");
    first = true;
    for (auto& v : gViol)
    {
        fprintf(o, "%s\n {\"kind\": %s, \"message\": %s, \"where\": %s, \"trace\": %s,\n  \"inputs\": [", first ? "" : ",", jesc(v.kind).c_str(),
                jesc(v.msg).c_str(), jesc(v.where).c_str(), jesc(v.trace).c_str());
        first = false;
        for (size_t i = 0; i < v.inputs.size(); ++i)
        {
            fprintf(o, "%s{\"name\": %s, \"width\": %u, \"values\": [", i ? ", " : "", jesc(v.inputs[i].name).c_str(), v.inputs[i].w);
            for (size_t j = 0; j < v.values[i].size(); ++j)
                fprintf(o, "%s%llu", j ? "," : "", (unsigned long long)v.values[i][j]);
            fprintf(o, "]}");
        }
        fprintf(o, "]}");
    }
    fprintf(o, "]\n}\n");
    if (o != stdout)
        fclose(o);
    else
        fflush(stdout);
}

static void setupGlobals(State& s)
{
    gStatic.emplace_back(); // id 0: null
    // functions
    for (auto& F : *gMod)
    {
        if (F.isIntrinsic())
            continue;
        Obj* o = new Obj();
        o->kind = K_FUNC;
        o->size = 1;
        o->ro = true;
        o->name = F.getName().str();
        gStatic.emplace_back(o);
        uint32_t id = (uint32_t)gStatic.size() - 1;
        gAddr[&F] = addrOf(id);
        gFuncById[id] = &F;
    }
    std::vector<GlobalVariable*> ro, rw;
    for (auto& g : gMod->globals())
    {
        if (g.getName().starts_with("llvm."))
            continue;
        if (g.isConstant() || g.isDeclaration())
            ro.push_back(&g);
        else
            rw.push_back(&g);
    }
    std::vector<std::pair<Obj*, GlobalVariable*>> inits;
    std::vector<Obj*> externTi;
    for (auto* g : ro)
    {
        Obj* o = new Obj();
        o->size = g->isDeclaration() ? 256 : (uint64_t)DL->getTypeAllocSize(g->getValueType());
        if (g->isDeclaration() && g->getValueType()->isSized())
            o->size = std::max<uint64_t>(o->size, DL->getTypeAllocSize(g->getValueType()));
        o->ro = true;
        o->name = g->getName().str();
        o->conc.assign(o->size, 0);
        o->st.assign(o->size, 0);
        gStatic.emplace_back(o);
        uint64_t a = addrOf((uint32_t)gStatic.size() - 1);
        gAddr[g] = a;
        if (g->isDeclaration())
            gExternData[a] = o->name;
        else
            inits.push_back({o, g});
        if (g->getName() == "_ZTVN10__cxxabiv117__class_type_infoE")
            gVtClass = a;
        if (g->getName() == "_ZTVN10__cxxabiv120__si_class_type_infoE")
            gVtSi = a;
        if (g->getName() == "_ZTVN10__cxxabiv121__vmi_class_type_infoE")
            gVtVmi = a;
        if (g->getName().starts_with("_ZTI"))
            gTypeInfoName[a] = g->getName().str();
        if (g->isDeclaration() && g->getName().starts_with("_ZTI"))
            externTi.push_back(o);
    }
    // type information which the C++ library provides: std::type_info compares the names
    for (auto* o : externTi)
    {
        std::string name = o->name.substr(4);
        Obj* n = new Obj();
        n->size = name.size() + 1;
        n->ro = true;
        n->name = "_ZTS" + name;
        n->conc.assign(n->size, 0);
        memcpy(n->conc.data(), name.data(), name.size());
        n->st.assign(n->size, 0);
        gStatic.emplace_back(n);
        uint64_t a = addrOf((uint32_t)gStatic.size() - 1);
        memcpy(o->conc.data() + 8, &a, 8);
    }
    gFirstDyn = (uint32_t)gStatic.size();
    for (auto* g : rw)
    {
        Obj* o = new Obj();
        o->size = DL->getTypeAllocSize(g->getValueType());
        o->name = g->getName().str();
        o->conc.assign(o->size, 0);
        o->st.assign(o->size, 0);
        s.objs.emplace_back(o);
        gAddr[g] = addrOf(gFirstDyn + (uint32_t)s.objs.size() - 1);
        inits.push_back({o, g});
    }
    for (auto& p : inits)
        initGlobal(p.first, p.second->getValueType(), p.second->getInitializer(), 0);
    // constructors
    if (auto* gc = gMod->getGlobalVariable("llvm.global_ctors"))
        if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer()))
        {
            std::vector<std::pair<uint64_t, Function*>> ct;
            for (auto& o : arr->operands())
            {
                auto* cs = cast<ConstantStruct>(o);
                if (auto* F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
                    ct.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F});
            }
            std::stable_sort(ct.begin(), ct.end(), [](auto& a, auto& b) { return a.first < b.first; });
            for (auto& c : ct)
                s.pending.push_back(c.second);
        }
}

// Rewrites before optimisation: message formatting of exceptions is cut out unless --keep-messages is given, and
// everything except the harness entries becomes internal.
static int prep(int argc, char** argv)
{
    std::string in, out;
    bool keep = false;
    for (int i = 2; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--keep-messages")
            keep = true;
        else if (in.empty())
            in = a;
        else
            out = a;
    }
    SMDiagnostic err;
    auto m = parseIRFile(in, err, gCtx);
    if (!m)
        fatal("cannot parse " + in + ": " + err.getMessage().str());
    for (auto& F : *m)
    {
        if (F.isDeclaration())
            continue;
        StringRef n = F.getName();
        if (!keep)
        {
            std::string d = demangle(n.str());
            bool op = d.find("zserio::operator<<") != std::string::npos && d.find("(zserio::CppRuntimeException&, ") != std::string::npos;
            bool app = d.find("zserio::CppRuntimeException::append(") == 0;
            if (op || app)
            {
                F.deleteBody();
                F.setComdat(nullptr);
                F.setLinkage(GlobalValue::InternalLinkage);
                F.setPersonalityFn(nullptr);
                BasicBlock* b = BasicBlock::Create(gCtx, "entry", &F);
                if (F.getReturnType()->isVoidTy())
                    ReturnInst::Create(gCtx, b);
                else
                    ReturnInst::Create(gCtx, F.getArg(0), b);
                F.setSubprogram(nullptr);
            }
        }
    }
    for (auto& F : *m)
        if (!F.isDeclaration() && !F.getName().starts_with("h_"))
        {
            F.setComdat(nullptr);
            if (F.hasLocalLinkage())
                continue;
            F.setVisibility(GlobalValue::DefaultVisibility);
            F.setLinkage(GlobalValue::InternalLinkage);
        }
    for (auto& g : m->globals())
        if (!g.isDeclaration() && !g.hasAppendingLinkage())
        {
            g.setComdat(nullptr);
            if (!g.hasLocalLinkage())
            {
                g.setVisibility(GlobalValue::DefaultVisibility);
                g.setLinkage(GlobalValue::InternalLinkage);
            }
        }
    for (auto& a : m->aliases())
        if (!a.hasLocalLinkage())
        {
            a.setVisibility(GlobalValue::DefaultVisibility);
            a.setLinkage(GlobalValue::InternalLinkage);
        }
    std::error_code ec;
    raw_fd_ostream os(out, ec);
    if (ec)
        fatal("cannot write " + out);
    WriteBitcodeToFile(*m, os);
    return 0;
}

int main(int argc, char** argv)
{
    if (argc > 1 && std::string(argv[1]) == "--prep")
        return prep(argc, argv);
    std::string bc;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto next = [&]() -> std::string {
            if (i + 1 >= argc)
                fatal("missing argument value");
            return argv[++i];
        };
        if (a == "--entry") gEntry = next();
        else if (a == "--out") gOut = next();
        else if (a == "--param")
        {
            std::string p = next();
            size_t e = p.find('=');
            gParams[p.substr(0, e)] = strtoull(p.c_str() + e + 1, nullptr, 0);
        }
        else if (a == "--max-steps") gMaxSteps = strtoull(next().c_str(), nullptr, 0);
        else if (a == "--max-paths") gMaxPaths = strtoull(next().c_str(), nullptr, 0);
        else if (a == "--max-time") gMaxTime = atof(next().c_str());
        else if (a == "--max-violations") gMaxViol = atoi(next().c_str());
        else if (a == "--query-timeout") gQueryTimeoutMs = (unsigned)atoi(next().c_str());
        else if (a == "--steps-are-violation") gStepsAreViolation = true;
        else if (a == "--concrete")
        {
            gConcrete = true;
            FILE* f = fopen(next().c_str(), "r");
            if (!f)
                fatal("cannot read concrete inputs");
            unsigned long long v;
            while (fscanf(f, "%llu", &v) == 1)
                gConcreteIn.push_back(v);
            fclose(f);
        }
        else bc = a;
    }
    gT0 = std::chrono::steady_clock::now();
    SMDiagnostic err;
    gMod = parseIRFile(bc, err, gCtx);
    if (!gMod)
        fatal("cannot parse " + bc + ": " + err.getMessage().str());
    DL = &gMod->getDataLayout();
    State* s = new State();
    s->allocLimit = 1 << 24;
    setupGlobals(*s);
    Function* E = gMod->getFunction(gEntry);
    if (!E || E->isDeclaration())
        fatal("no entry " + gEntry);
    s->pending.push_back(E);
    gWork.push_back(s);
    double loadTime = elapsed();
    (void)loadTime;
    const char* status = "complete";
    while (!gWork.empty())
    {
        State* cur = gWork.back();
        gWork.pop_back();
        try
        {
            for (;;)
            {
                if (cur->stack.empty())
                {
                    if (cur->pendingPos >= cur->pending.size())
                    {
                        ++gStats.paths;
                        samplePath(*cur);
                        break;
                    }
                    pushFrame(*cur, cur->pending[cur->pendingPos++], {});
                }
                step(*cur);
                if (cur->steps > gMaxSteps)
                {
                    if (gStepsAreViolation)
                        violation(*cur, "step-limit", "path exceeds " + std::to_string(gMaxSteps) + " instructions");
                    else
                        incomplete("step limit of " + std::to_string(gMaxSteps) + " instructions in " + traceOf(*cur).substr(0, 600));
                    break;
                }
                if ((gStats.instrs & 0xfff) == 0 && elapsed() > gMaxTime)
                {
                    incomplete("time limit");
                    goto done;
                }
            }
        }
        catch (PathEnd&)
        {
        }
        delete cur;
        if ((int)gViol.size() >= gMaxViol)
        {
            status = "violation";
            break;
        }
        if (gStats.paths > gMaxPaths)
        {
            incomplete("path limit");
            break;
        }
        if (elapsed() > gMaxTime)
        {
            incomplete("time limit");
            break;
        }
    }
done:
    if (!gViol.empty())
        status = "violation";
    else if (!gStats.incomplete.empty())
        status = "incomplete";
    report(status);
    fflush(nullptr);
    _exit(gViol.empty() ? (gStats.incomplete.empty() ? 0 : 2) : 1);
}
