// Hash-consed bit-vector expressions with local simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

typedef unsigned __int128 u128;

enum class Op : uint8_t
{
    Const, Sym, Concat, Extract, ZExt, SExt,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite,
    FAdd, FSub, FMul, FDiv, FPToUI, FPToSI, UIToFP, SIToFP, FPExt, FPTrunc, FRound, FSqrt,
    Agg
};

struct VarSet
{
    std::vector<uint64_t> w;
    bool intersects(const VarSet& o) const
    {
        size_t n = w.size() < o.w.size() ? w.size() : o.w.size();
        for (size_t i = 0; i < n; ++i)
            if (w[i] & o.w[i])
                return true;
        return false;
    }
    bool unite(const VarSet& o)
    {
        bool ch = false;
        if (o.w.size() > w.size())
            w.resize(o.w.size(), 0);
        for (size_t i = 0; i < o.w.size(); ++i)
        {
            uint64_t n = w[i] | o.w[i];
            if (n != w[i])
            {
                w[i] = n;
                ch = true;
            }
        }
        return ch;
    }
};

struct Expr
{
    Op op;
    bool hasFp;
    uint16_t w;
    uint32_t id;
    uint32_t aux; // Sym: var index; Extract: lo; FRound: mode; Agg: count
    const Expr *a, *b, *c;
    u128 v;              // Const value
    uint64_t umin, umax; // only meaningful for w <= 64
    const VarSet* vars;
    const Expr** elems; // Agg
    mutable void* z3;
    mutable uint32_t epoch;
    mutable u128 ev;
    bool isConst() const { return op == Op::Const; }
    uint64_t u() const { return (uint64_t)v; }
    bool isTrue() const { return op == Op::Const && v == 1; }
    bool isFalse() const { return op == Op::Const && v == 0; }
};
typedef const Expr* Ref;

inline u128 maskOf(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline u128 sextTo128(u128 v, unsigned w)
{
    if (w >= 128)
        return v;
    return (v >> (w - 1)) & 1 ? v | ~maskOf(w) : v & maskOf(w);
}

struct SymVar
{
    std::string name;
    unsigned w;
    Ref e;
};
extern std::vector<SymVar> gVars;

Ref mkConst(u128 v, unsigned w);
Ref mkSym(const std::string& name, unsigned w);
Ref mkConcat(Ref hi, Ref lo);
Ref mkExtract(Ref e, unsigned lo, unsigned w);
Ref mkZExt(Ref e, unsigned w);
Ref mkSExt(Ref e, unsigned w);
Ref mkZExtOrTrunc(Ref e, unsigned w);
Ref mkBin(Op op, Ref a, Ref b);
Ref mkNot1(Ref a); // width-1 negation
Ref mkIte(Ref c, Ref a, Ref b);
Ref mkFp(Op op, unsigned w, Ref a, Ref b, uint32_t aux);
Ref mkAgg(const std::vector<Ref>& el);
inline Ref mkTrue() { static Ref t = mkConst(1, 1); return t; }
inline Ref mkFalse() { static Ref t = mkConst(0, 1); return t; }
inline Ref mkEq(Ref a, Ref b) { return mkBin(Op::Eq, a, b); }
inline Ref mkAnd(Ref a, Ref b) { return mkBin(Op::And, a, b); }
inline Ref mkOr(Ref a, Ref b) { return mkBin(Op::Or, a, b); }
Ref mkFCmp(unsigned pred, Ref a, Ref b); // llvm::CmpInst predicate, widths 32 or 64

// evaluation under a model (values indexed by variable)
u128 evalExpr(Ref e, const std::vector<uint64_t>& model);
u128 foldBin(Op op, u128 a, u128 b, unsigned w);
u128 foldFp(Op op, unsigned w, u128 a, unsigned aw, u128 b, uint32_t aux);
unsigned knownTrailingZeros(Ref e);
std::string exprStr(Ref e, int depth = 6);
size_t exprCount();
