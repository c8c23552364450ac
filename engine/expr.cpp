#include "expr.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <unordered_map>

std::vector<SymVar> gVars;

namespace
{
// ---- node storage -------------------------------------------------------------------------------------
struct Arena
{
    char* cur = nullptr;
    size_t left = 0;
    void* get(size_t n)
    {
        n = (n + 15) & ~size_t(15);
        if (n > left)
        {
            left = n > (1u << 20) ? n : (1u << 20);
            cur = (char*)aligned_alloc(16, left);
        }
        void* p = cur;
        cur += n;
        left -= n;
        return p;
    }
} gArena;

std::vector<Expr*> gTab(1 << 16, nullptr);
size_t gCount = 0;
uint32_t gNextId = 1;
VarSet gEmpty;
std::unordered_map<uint64_t, const VarSet*> gUnionMemo;

uint64_t hashNode(const Expr& e)
{
    uint64_t h = (uint64_t)e.op * 0x9E3779B97F4A7C15ull;
    auto mix = [&](uint64_t x) {
        h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull;
        h ^= h >> 32;
    };
    mix(e.w);
    mix(e.aux);
    mix(e.a ? e.a->id : 0);
    mix(e.b ? e.b->id : 0);
    mix(e.c ? e.c->id : 0);
    mix((uint64_t)e.v);
    mix((uint64_t)(e.v >> 64));
    return h;
}

bool same(const Expr& x, const Expr& y)
{
    return x.op == y.op && x.w == y.w && x.aux == y.aux && x.a == y.a && x.b == y.b && x.c == y.c && x.v == y.v;
}

struct VSHash
{
    size_t operator()(const std::vector<uint64_t>& v) const
    {
        uint64_t h = 1469598103934665603ull;
        for (uint64_t x : v)
        {
            h ^= x;
            h *= 1099511628211ull;
            h ^= h >> 29;
        }
        return h;
    }
};
std::unordered_map<std::vector<uint64_t>, const VarSet*, VSHash> gVarSets;

const VarSet* internVS(VarSet&& s)
{
    auto it = gVarSets.find(s.w);
    if (it != gVarSets.end())
        return it->second;
    auto* n = new VarSet(std::move(s));
    gVarSets[n->w] = n;
    return n;
}

const VarSet* vsUnion(const VarSet* x, const VarSet* y)
{
    if (x == y || y == &gEmpty)
        return x;
    if (x == &gEmpty)
        return y;
    if (x > y)
        std::swap(x, y);
    uint64_t k = (uint64_t)(uintptr_t)x * 0x9E3779B97F4A7C15ull ^ (uint64_t)(uintptr_t)y;
    static std::unordered_map<uint64_t, std::vector<std::pair<std::pair<const VarSet*, const VarSet*>, const VarSet*>>> memo;
    auto& b = memo[k];
    for (auto& e : b)
        if (e.first.first == x && e.first.second == y)
            return e.second;
    VarSet u = *x;
    u.unite(*y);
    const VarSet* r = internVS(std::move(u));
    b.push_back({{x, y}, r});
    return r;
}

void ranges(Expr& e)
{
    if (e.w > 64)
    {
        e.umin = 0;
        e.umax = ~0ull;
        return;
    }
    uint64_t m = (uint64_t)maskOf(e.w);
    e.umin = 0;
    e.umax = m;
    switch (e.op)
    {
    case Op::Const:
        e.umin = e.umax = (uint64_t)e.v;
        break;
    case Op::ZExt:
        e.umin = e.a->umin;
        e.umax = e.a->umax;
        break;
    case Op::Concat:
        e.umin = (e.a->umin << e.b->w) | e.b->umin;
        e.umax = (e.a->umax << e.b->w) | e.b->umax;
        break;
    case Op::Extract:
        if (e.a->w <= 64 && e.aux == 0 && e.a->umax <= m)
        {
            e.umin = e.a->umin;
            e.umax = e.a->umax;
        }
        else if (e.a->w <= 64 && (e.a->umax >> e.aux) <= m)
        {
            e.umin = e.a->umin >> e.aux;
            e.umax = e.a->umax >> e.aux;
        }
        break;
    case Op::Add:
    {
        u128 hi = (u128)e.a->umax + e.b->umax;
        if (hi <= m)
        {
            e.umin = e.a->umin + e.b->umin;
            e.umax = (uint64_t)hi;
        }
        break;
    }
    case Op::Sub:
        if (e.a->umin >= e.b->umax)
        {
            e.umin = e.a->umin - e.b->umax;
            e.umax = e.a->umax - e.b->umin;
        }
        else if (e.a->umax < e.b->umin)
        {
            // always wraps
            e.umin = (e.a->umin - e.b->umax) & m;
            e.umax = (e.a->umax - e.b->umin) & m;
        }
        break;
    case Op::Mul:
    {
        u128 hi = (u128)e.a->umax * e.b->umax;
        if (hi <= m)
        {
            e.umin = e.a->umin * e.b->umin;
            e.umax = (uint64_t)hi;
        }
        break;
    }
    case Op::And:
        e.umax = e.a->umax < e.b->umax ? e.a->umax : e.b->umax;
        break;
    case Op::Or:
    {
        e.umin = e.a->umin > e.b->umin ? e.a->umin : e.b->umin;
        uint64_t t = e.a->umax | e.b->umax;
        while (t & (t + 1))
            t |= t >> 1, t |= t >> 2, t |= t >> 4, t |= t >> 8, t |= t >> 16, t |= t >> 32;
        e.umax = t;
        break;
    }
    case Op::Xor:
    {
        uint64_t t = e.a->umax | e.b->umax;
        while (t & (t + 1))
            t |= t >> 1, t |= t >> 2, t |= t >> 4, t |= t >> 8, t |= t >> 16, t |= t >> 32;
        e.umax = t;
        break;
    }
    case Op::UDiv:
        if (e.b->umin > 0)
        {
            e.umin = e.a->umin / e.b->umax;
            e.umax = e.a->umax / e.b->umin;
        }
        break;
    case Op::URem:
        if (e.b->umin > 0)
        {
            uint64_t t = e.b->umax - 1;
            e.umax = t < e.a->umax ? t : e.a->umax;
        }
        break;
    case Op::LShr:
        if (e.b->umin < e.w)
        {
            e.umax = e.a->umax >> e.b->umin;
            e.umin = e.b->umax < e.w ? e.a->umin >> e.b->umax : 0;
        }
        break;
    case Op::Ite:
        e.umin = e.b->umin < e.c->umin ? e.b->umin : e.c->umin;
        e.umax = e.b->umax > e.c->umax ? e.b->umax : e.c->umax;
        break;
    default:
        break;
    }
}

Ref intern(Expr& t)
{
    uint64_t h = hashNode(t);
    size_t mask = gTab.size() - 1;
    size_t i = h & mask;
    while (gTab[i])
    {
        if (same(*gTab[i], t))
        {
            Ref n = gTab[i];
            if (t.op != Op::Const && t.op != Op::Sym && t.w <= 64 && n->umin == n->umax)
                return mkConst(n->umin, t.w);
            return n;
        }
        i = (i + 1) & mask;
    }
    Expr* n = (Expr*)gArena.get(sizeof(Expr));
    *n = t;
    n->id = gNextId++;
    n->z3 = nullptr;
    n->epoch = 0;
    n->elems = nullptr;
    n->hasFp = (t.op >= Op::FAdd && t.op <= Op::FSqrt) || (t.a && t.a->hasFp) || (t.b && t.b->hasFp) || (t.c && t.c->hasFp);
    if (t.op == Op::Const)
        n->vars = &gEmpty;
    else if (t.op == Op::Sym)
    {
        VarSet s;
        s.w.resize(t.aux / 64 + 1, 0);
        s.w[t.aux / 64] |= 1ull << (t.aux % 64);
        n->vars = internVS(std::move(s));
    }
    else
    {
        const VarSet* s = t.a->vars;
        if (t.b)
            s = vsUnion(s, t.b->vars);
        if (t.c)
            s = vsUnion(s, t.c->vars);
        n->vars = s;
    }
    ranges(*n);
    gTab[i] = n;
    if (++gCount * 2 > gTab.size())
    {
        std::vector<Expr*> old(gTab.size() * 2, nullptr);
        old.swap(gTab);
        size_t m2 = gTab.size() - 1;
        for (Expr* e : old)
            if (e)
            {
                size_t j = hashNode(*e) & m2;
                while (gTab[j])
                    j = (j + 1) & m2;
                gTab[j] = e;
            }
    }
    // a computed range that is a single value makes the node a constant
    if (t.op != Op::Const && t.op != Op::Sym && t.w <= 64 && n->umin == n->umax)
        return mkConst(n->umin, t.w);
    return n;
}

Ref node(Op op, unsigned w, Ref a = nullptr, Ref b = nullptr, Ref c = nullptr, uint32_t aux = 0, u128 v = 0)
{
    Expr t;
    memset((void*)&t, 0, sizeof t);
    t.op = op;
    t.w = (uint16_t)w;
    t.a = a;
    t.b = b;
    t.c = c;
    t.aux = aux;
    t.v = v;
    return intern(t);
}

void die(const char* m)
{
    fprintf(stderr, "ENGINE-ERROR: %s\n", m);
    exit(3);
}

// decompose into pieces from low to high
struct Piece
{
    Ref e;
};
void pieces(Ref e, std::vector<Ref>& out)
{
    if (e->op == Op::Concat)
    {
        pieces(e->b, out);
        pieces(e->a, out);
    }
    else if (e->op == Op::ZExt)
    {
        pieces(e->a, out);
        out.push_back(mkConst(0, e->w - e->a->w));
    }
    else
        out.push_back(e);
}
bool structured(Ref e) { return e->op == Op::Concat || e->op == Op::ZExt || e->op == Op::Const; }

// bitwise op done piecewise when no segment keeps two symbolic operands
Ref piecewise(Op op, Ref a, Ref b)
{
    if (!structured(a) && !structured(b))
        return nullptr;
    std::vector<Ref> pa, pb;
    pieces(a, pa);
    pieces(b, pb);
    if (pa.size() + pb.size() > 40)
        return nullptr;
    // split constants of one side at mask runs so that and/or with masks become extracts
    auto splitRuns = [&](std::vector<Ref>& p) {
        std::vector<Ref> o;
        for (Ref e : p)
        {
            if (!e->isConst() || op == Op::Xor)
            {
                o.push_back(e);
                continue;
            }
            unsigned i = 0;
            while (i < e->w)
            {
                unsigned j = i + 1;
                unsigned bit = (unsigned)((e->v >> i) & 1);
                while (j < e->w && ((unsigned)((e->v >> j) & 1)) == bit)
                    ++j;
                o.push_back(mkConst(e->v >> i, j - i));
                i = j;
            }
        }
        p.swap(o);
    };
    size_t ca = pa.size(), cb = pb.size();
    splitRuns(pa);
    splitRuns(pb);
    if (pa.size() > ca + 12 || pb.size() > cb + 12)
        return nullptr;
    size_t i = 0, j = 0;
    unsigned oa = 0, ob = 0;
    std::vector<Ref> res;
    while (i < pa.size())
    {
        unsigned ra = pa[i]->w - oa, rb = pb[j]->w - ob;
        unsigned n = ra < rb ? ra : rb;
        Ref x = mkExtract(pa[i], oa, n), y = mkExtract(pb[j], ob, n);
        Ref r = nullptr;
        if (x->isConst() && y->isConst())
            r = mkConst(foldBin(op, x->v, y->v, n), n);
        else if (x == y)
            r = op == Op::Xor ? mkConst(0, n) : x;
        else
        {
            Ref k = x->isConst() ? x : y->isConst() ? y : nullptr;
            Ref s = k == x ? y : x;
            if (!k)
                return nullptr;
            u128 full = maskOf(n);
            if (op == Op::And && k->v == 0)
                r = k;
            else if (op == Op::And && k->v == full)
                r = s;
            else if (op == Op::Or && k->v == 0)
                r = s;
            else if (op == Op::Or && k->v == full)
                r = k;
            else if (op == Op::Xor && k->v == 0)
                r = s;
            else if (op == Op::Xor)
                r = node(Op::Xor, n, s, k);
            else
                return nullptr;
        }
        res.push_back(r);
        oa += n;
        ob += n;
        if (oa == pa[i]->w)
        {
            ++i;
            oa = 0;
        }
        if (ob == pb[j]->w)
        {
            ++j;
            ob = 0;
        }
    }
    Ref r = res[0];
    for (size_t k = 1; k < res.size(); ++k)
        r = mkConcat(res[k], r);
    return r;
}
} // namespace

size_t exprCount() { return gCount; }

Ref mkConst(u128 v, unsigned w)
{
    if (w > 128)
        die("constant wider than 128 bits");
    return node(Op::Const, w, nullptr, nullptr, nullptr, 0, v & maskOf(w));
}

Ref mkSym(const std::string& name, unsigned w)
{
    uint32_t idx = (uint32_t)gVars.size();
    Ref e = node(Op::Sym, w, nullptr, nullptr, nullptr, idx);
    gVars.push_back({name, w, e});
    return e;
}

Ref mkAgg(const std::vector<Ref>& el)
{
    Expr* n = (Expr*)gArena.get(sizeof(Expr));
    memset((void*)n, 0, sizeof *n);
    n->op = Op::Agg;
    n->id = gNextId++;
    n->aux = (uint32_t)el.size();
    n->vars = &gEmpty;
    n->elems = (const Expr**)gArena.get(sizeof(Ref) * (el.size() + 1));
    for (size_t i = 0; i < el.size(); ++i)
        n->elems[i] = el[i];
    return n;
}

Ref mkConcat(Ref hi, Ref lo)
{
    unsigned w = hi->w + lo->w;
    if (w > 128)
        die("concat wider than 128 bits");
    if (hi->isConst() && lo->isConst())
        return mkConst((hi->v << lo->w) | lo->v, w);
    if (hi->isConst() && hi->v == 0)
        return mkZExt(lo, w);
    // adjacent extracts
    if (hi->op == Op::Extract && lo->op == Op::Extract && hi->a == lo->a && hi->aux == lo->aux + lo->w)
        return mkExtract(lo->a, lo->aux, w);
    if (hi->op == Op::Extract && hi->a == lo && hi->aux == lo->w)
        return mkExtract(lo, 0, w); // cannot happen (out of range) but harmless
    // the low part of a sum is kept as a sum of low parts: join it with the upper part again
    auto isLow = [](Ref h, Ref l) {
        return h->op == Op::Extract && h->aux == l->w && (h->a->op == Op::Add || h->a->op == Op::Sub || h->a->op == Op::Mul) &&
                mkExtract(h->a, 0, l->w) == l;
    };
    if (isLow(hi, lo))
        return mkExtract(hi->a, 0, w);
    // hi = ZExt(x): Concat(ZExt(x), lo) = ZExt(Concat(x, lo))
    if (hi->op == Op::ZExt)
        return mkZExt(mkConcat(hi->a, lo), w);
    // right-assoc canonical form: Concat(a, Concat(b, c)) -> low side nested:
    // represent as Concat(hi, lo) with hi atomic: Concat(Concat(a,b),c) -> Concat(a, Concat(b,c))
    if (hi->op == Op::Concat)
        return mkConcat(hi->a, mkConcat(hi->b, lo));
    // merge hi with the top piece of lo
    if (lo->op == Op::Concat)
    {
        Ref t = lo->a;
        if (hi->isConst() && t->isConst())
            return mkConcat(mkConst((hi->v << t->w) | t->v, hi->w + t->w), lo->b);
        if (hi->op == Op::Extract && t->op == Op::Extract && hi->a == t->a && hi->aux == t->aux + t->w)
            return mkConcat(mkExtract(t->a, t->aux, hi->w + t->w), lo->b);
        if (isLow(hi, t))
            return mkConcat(mkExtract(hi->a, 0, hi->w + t->w), lo->b);
    }
    if (lo->op == Op::ZExt)
    {
        // Concat(hi, ZExt(x)) -> Concat(hi, Concat(0, x)) : keep the zero piece explicit
        Ref z = mkConst(0, lo->w - lo->a->w);
        Ref x = lo->a;
        Ref top = hi->isConst() ? mkConst(hi->v << z->w, hi->w + z->w) : nullptr;
        if (top)
            return node(Op::Concat, w, top, x);
        return node(Op::Concat, w, hi, node(Op::Concat, lo->w, z, x));
    }
    return node(Op::Concat, w, hi, lo);
}

Ref mkExtract(Ref e, unsigned lo, unsigned w)
{
    if (lo == 0 && w == e->w)
        return e;
    if (lo + w > e->w)
        die("extract out of range");
    switch (e->op)
    {
    case Op::Const:
        return mkConst(e->v >> lo, w);
    case Op::Extract:
        return mkExtract(e->a, e->aux + lo, w);
    case Op::Concat:
        if (lo >= e->b->w)
            return mkExtract(e->a, lo - e->b->w, w);
        if (lo + w <= e->b->w)
            return mkExtract(e->b, lo, w);
        return mkConcat(mkExtract(e->a, 0, lo + w - e->b->w), mkExtract(e->b, lo, e->b->w - lo));
    case Op::ZExt:
        if (lo >= e->a->w)
            return mkConst(0, w);
        if (lo + w <= e->a->w)
            return mkExtract(e->a, lo, w);
        return mkZExt(mkExtract(e->a, lo, e->a->w - lo), w);
    case Op::SExt:
        if (lo + w <= e->a->w)
            return mkExtract(e->a, lo, w);
        if (lo == 0 && w > e->a->w)
            return mkSExt(e->a, w);
        if (w == 1)
            return mkExtract(e->a, e->a->w - 1, 1);
        break;
    case Op::Ite:
        if (e->b->isConst() || e->c->isConst())
            return mkIte(e->a, mkExtract(e->b, lo, w), mkExtract(e->c, lo, w));
        break;
    case Op::And:
    case Op::Or:
    case Op::Xor:
        if (e->w > 1)
            return mkBin(e->op, mkExtract(e->a, lo, w), mkExtract(e->b, lo, w));
        break;
    case Op::Add:
    case Op::Sub:
    case Op::Mul:
        if (lo == 0)
            return mkBin(e->op, mkExtract(e->a, 0, w), mkExtract(e->b, 0, w));
        break;
    default:
        break;
    }
    return node(Op::Extract, w, e, nullptr, nullptr, lo);
}

Ref mkZExt(Ref e, unsigned w)
{
    if (e->w == w)
        return e;
    if (w < e->w)
        die("zext shrinks");
    if (w > 128)
        die("zext wider than 128");
    if (e->isConst())
        return mkConst(e->v, w);
    if (e->op == Op::ZExt)
        return mkZExt(e->a, w);
    // what an extension of the lower bits cuts off is known to be zero
    if (e->op == Op::Extract && e->aux == 0 && e->a->w <= w && e->a->w <= 64 && e->a->umax <= (uint64_t)maskOf(e->w))
        return mkZExt(e->a, w);
    if (e->op == Op::Concat && e->a->isConst())
    {
        // strip a leading zero piece
        if (e->a->v == 0)
            return mkZExt(e->b, w);
    }
    if (e->op == Op::Ite && e->b->isConst() && e->c->isConst())
        return mkIte(e->a, mkConst(e->b->v, w), mkConst(e->c->v, w));
    return node(Op::ZExt, w, e);
}

Ref mkSExt(Ref e, unsigned w)
{
    if (e->w == w)
        return e;
    if (e->isConst())
        return mkConst(sextTo128(e->v, e->w), w);
    if (e->op == Op::SExt)
        return mkSExt(e->a, w);
    if (e->op == Op::ZExt)
        return mkZExt(e->a, w);
    if (e->w <= 64 && e->umax < (1ull << (e->w - 1)))
        return mkZExt(e, w);
    // a constant minus something which stays above the smallest number
    if (e->w <= 64 && e->op == Op::Sub && e->a->isConst())
    {
        u128 c = sextTo128(e->a->v, e->w);
        if ((u128)e->b->umax <= (u128)(c + ((u128)1 << (e->w - 1))))
            return mkBin(Op::Sub, mkConst(c, w), mkZExt(e->b, w));
    }
    if (e->op == Op::Ite && e->b->isConst() && e->c->isConst())
        return mkIte(e->a, mkSExt(e->b, w), mkSExt(e->c, w));
    return node(Op::SExt, w, e);
}

Ref mkZExtOrTrunc(Ref e, unsigned w) { return w <= e->w ? mkExtract(e, 0, w) : mkZExt(e, w); }

u128 foldBin(Op op, u128 a, u128 b, unsigned w)
{
    u128 m = maskOf(w);
    switch (op)
    {
    case Op::Add: return (a + b) & m;
    case Op::Sub: return (a - b) & m;
    case Op::Mul: return (a * b) & m;
    case Op::UDiv: return b == 0 ? m : (a / b);
    case Op::URem: return b == 0 ? a : (a % b);
    case Op::SDiv:
    {
        __int128 x = (__int128)sextTo128(a, w), y = (__int128)sextTo128(b, w);
        if (y == 0)
            return x < 0 ? 1 : m;
        if (y == -1)
            return (u128)(-(u128)x) & m;
        return (u128)(x / y) & m;
    }
    case Op::SRem:
    {
        __int128 x = (__int128)sextTo128(a, w), y = (__int128)sextTo128(b, w);
        if (y == 0)
            return a;
        if (y == -1)
            return 0;
        return (u128)(x % y) & m;
    }
    case Op::And: return a & b;
    case Op::Or: return a | b;
    case Op::Xor: return a ^ b;
    case Op::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case Op::LShr: return b >= w ? 0 : (a >> (unsigned)b);
    case Op::AShr:
    {
        __int128 x = (__int128)sextTo128(a, w);
        unsigned s = b >= w ? w - 1 : (unsigned)b;
        return (u128)(x >> s) & m;
    }
    case Op::Eq: return a == b;
    case Op::Ult: return a < b;
    case Op::Ule: return a <= b;
    case Op::Slt: return (__int128)sextTo128(a, w) < (__int128)sextTo128(b, w);
    case Op::Sle: return (__int128)sextTo128(a, w) <= (__int128)sextTo128(b, w);
    default: die("foldBin"); return 0;
    }
}

Ref mkNot1(Ref a)
{
    if (a->isConst())
        return mkConst(a->v ^ 1, 1);
    switch (a->op)
    {
    case Op::Ult: return mkBin(Op::Ule, a->b, a->a);
    case Op::Ule: return mkBin(Op::Ult, a->b, a->a);
    case Op::Slt: return mkBin(Op::Sle, a->b, a->a);
    case Op::Sle: return mkBin(Op::Slt, a->b, a->a);
    case Op::Xor:
        if (a->b->isConst())
            return a->b->v ? a->a : a;
        break;
    default: break;
    }
    return node(Op::Xor, 1, a, mkConst(1, 1));
}

static bool isNot(Ref a, Ref b)
{
    return (a->op == Op::Xor && a->w == 1 && a->b->isConst() && a->a == b) ||
            (b->op == Op::Xor && b->w == 1 && b->b->isConst() && b->a == a) ||
            (a->op == Op::Ult && b->op == Op::Ule && a->a == b->b && a->b == b->a) ||
            (b->op == Op::Ult && a->op == Op::Ule && a->a == b->b && a->b == b->a);
}

Ref mkIte(Ref c, Ref a, Ref b)
{
    if (c->isConst())
        return c->v ? a : b;
    if (a == b)
        return a;
    if (a->op == Op::Agg)
    {
        std::vector<Ref> el;
        for (uint32_t i = 0; i < a->aux; ++i)
            el.push_back(mkIte(c, a->elems[i], b->elems[i]));
        return mkAgg(el);
    }
    if (c->op == Op::Xor && c->w == 1 && c->b->isConst() && c->b->v == 1)
        return mkIte(c->a, b, a);
    if (a->w == 1)
    {
        if (a->isConst() && b->isConst())
            return a->v ? c : mkNot1(c);
        if (a->isConst())
            return a->v ? mkOr(c, b) : mkAnd(mkNot1(c), b);
        if (b->isConst())
            return b->v ? mkOr(mkNot1(c), a) : mkAnd(c, a);
        if (a == c)
            return mkOr(c, b);
        if (b == c)
            return mkAnd(c, a);
    }
    if (a->op == Op::Ite && a->a == c)
        return mkIte(c, a->b, b);
    if (b->op == Op::Ite && b->a == c)
        return mkIte(c, a, b->c);
    if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->w == b->a->w)
        return mkZExt(mkIte(c, a->a, b->a), a->w);
    if (a->op == Op::ZExt && b->isConst() && a->w <= 64 && b->umax <= (uint64_t)maskOf(a->a->w))
        return mkZExt(mkIte(c, a->a, mkConst(b->v, a->a->w)), a->w);
    if (b->op == Op::ZExt && a->isConst() && b->w <= 64 && a->umax <= (uint64_t)maskOf(b->a->w))
        return mkZExt(mkIte(c, mkConst(a->v, b->a->w), b->a), a->w);
    return node(Op::Ite, a->w, c, a, b);
}

unsigned knownTrailingZeros(Ref e)
{
    switch (e->op)
    {
    case Op::Const:
    {
        if (e->v == 0)
            return e->w;
        unsigned n = 0;
        while (!((e->v >> n) & 1))
            ++n;
        return n;
    }
    case Op::Concat:
    {
        unsigned n = knownTrailingZeros(e->b);
        return n == e->b->w ? n + knownTrailingZeros(e->a) : n;
    }
    case Op::ZExt:
    case Op::SExt: return knownTrailingZeros(e->a);
    case Op::Shl:
        if (e->b->isConst())
        {
            unsigned n = knownTrailingZeros(e->a) + (unsigned)e->b->v;
            return n > e->w ? e->w : n;
        }
        return 0;
    case Op::Add:
    case Op::Sub:
    case Op::Or:
    case Op::Xor:
    {
        unsigned x = knownTrailingZeros(e->a), y = knownTrailingZeros(e->b);
        return x < y ? x : y;
    }
    case Op::And:
    {
        unsigned x = knownTrailingZeros(e->a), y = knownTrailingZeros(e->b);
        return x > y ? x : y;
    }
    case Op::Mul:
    {
        unsigned n = knownTrailingZeros(e->a) + knownTrailingZeros(e->b);
        return n > e->w ? e->w : n;
    }
    case Op::Ite:
    {
        unsigned x = knownTrailingZeros(e->b), y = knownTrailingZeros(e->c);
        return x < y ? x : y;
    }
    default: return 0;
    }
}

// sums as lists of terms, used to cancel equal terms on both sides of an equation
struct Linear
{
    std::vector<std::pair<Ref, int>> terms;
    u128 k = 0;
    bool tooMany = false;
    void add(Ref e, int sign)
    {
        if (e->isConst())
            k = sign > 0 ? k + e->v : k - e->v;
        else if (e->op == Op::Add)
        {
            add(e->a, sign);
            add(e->b, sign);
        }
        else if (e->op == Op::Sub)
        {
            add(e->a, sign);
            add(e->b, -sign);
        }
        else
        {
            for (auto& t : terms)
                if (t.first == e)
                {
                    t.second += sign;
                    return;
                }
            terms.push_back({e, sign});
            tooMany |= terms.size() > 8;
        }
    }
};

// a == b where equal terms of two sums cancel out; null when nothing cancels
static Ref cancelEq(Ref a, Ref b)
{
    auto isSum = [](Ref e) { return e->op == Op::Add || e->op == Op::Sub; };
    if (!isSum(a) && !isSum(b))
        return nullptr;
    Linear l;
    l.add(a, 1);
    if (l.tooMany)
        return nullptr;
    bool cancels = false;
    Linear r;
    r.add(b, 1);
    if (r.tooMany)
        return nullptr;
    for (auto& x : l.terms)
        for (auto& y : r.terms)
            cancels |= x.first == y.first && x.second * y.second > 0;
    if (!cancels)
        return nullptr;
    l.add(b, -1);
    Ref pos = mkConst(l.k, a->w), neg = nullptr;
    for (auto& t : l.terms)
    {
        if (t.second > 3 || t.second < -3)
            return nullptr;
        for (int i = 0; i < t.second; ++i)
            pos = mkBin(Op::Add, pos, t.first);
        for (int i = 0; i < -t.second; ++i)
            neg = neg ? mkBin(Op::Add, neg, t.first) : t.first;
    }
    return mkEq(pos, neg ? neg : mkConst(0, a->w));
}

// a == q * c + r without overflow and with r < c
static bool splitMultiple(Ref a, Ref c, Ref& q, Ref& r)
{
    const unsigned w = a->w;
    if (w > 64 || !c->isConst() || c->v < 2 || (a->op != Op::Add && a->op != Op::Mul && a->op != Op::Concat))
        return false;
    const u128 cv = c->v;
    Ref todo[24];
    unsigned m = 0;
    todo[m++] = a;
    u128 all = 0, rest = 0;
    Ref qs = mkConst(0, w), rs = mkConst(0, w);
    bool some = false;
    const auto constant = [&](u128 v) {
        all += v;
        rest += v % cv;
        if (v >= cv)
            some = true;
        qs = mkBin(Op::Add, qs, mkConst(v / cv, w));
        rs = mkBin(Op::Add, rs, mkConst(v % cv, w));
    };
    while (m > 0)
    {
        Ref t = todo[--m];
        if (t->op == Op::Add && (u128)t->a->umax + t->b->umax <= maskOf(t->w))
        {
            if (m + 2 > 24)
                return false;
            todo[m++] = t->a;
            todo[m++] = t->b;
        }
        else if (t->op == Op::ZExt && (t->a->op == Op::Add || t->a->op == Op::Mul))
            todo[m++] = t->a;
        else if (t->op == Op::Concat && t->a->isConst())
        {
            constant(t->a->v << t->b->w);
            todo[m++] = t->b;
        }
        else if (t->op == Op::Mul && t->b->isConst() && t->b->v % cv == 0 &&
                (u128)t->a->umax * (uint64_t)t->b->v <= maskOf(t->w))
        {
            all += (u128)t->a->umax * (uint64_t)t->b->v;
            qs = mkBin(Op::Add, qs, mkBin(Op::Mul, mkZExt(t->a, w), mkConst(t->b->v / cv, w)));
            some = true;
        }
        else if (t->isConst())
            constant(t->v);
        else
        {
            all += t->umax;
            rest += t->umax;
            rs = mkBin(Op::Add, rs, mkZExt(t, w));
        }
    }
    if (!some || all > maskOf(w) || rest >= cv)
        return false;
    q = qs;
    r = rs;
    return true;
}

Ref mkBin(Op op, Ref a, Ref b)
{
    unsigned w = a->w;
    if (a->w != b->w)
        die("mkBin width mismatch");
    bool cmp = op >= Op::Eq && op <= Op::Sle;
    unsigned rw = cmp ? 1 : w;
    if (a->isConst() && b->isConst())
        return mkConst(foldBin(op, a->v, b->v, w), rw);
    u128 full = maskOf(w);
    // commutative: constant to the right, otherwise by id
    if (op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor || op == Op::Eq)
    {
        if (a->isConst() || (!b->isConst() && a->id > b->id))
            std::swap(a, b);
    }
    switch (op)
    {
    case Op::Add:
        if (w == 1)
            return mkBin(Op::Xor, a, b);
        if (b->isConst())
        {
            if (b->v == 0)
                return a;
            if (a->op == Op::Add && a->b->isConst())
                return mkBin(Op::Add, a->a, mkConst(a->b->v + b->v, w));
            if (a->op == Op::Sub && a->a->isConst())
                return mkBin(Op::Sub, mkConst(a->a->v + b->v, w), a->b);
            // a constant taken off the constant upper bits
            {
                Ref z = a->op == Op::ZExt ? a->a : a;
                if (w <= 64 && z->op == Op::Concat && z->a->isConst())
                {
                    uint64_t c = (uint64_t)(((z->a->v << z->b->w) + b->v) & full);
                    if (c == 0)
                        return mkZExt(z->b, w);
                }
            }
            // constants through an extension of a sum which does not wrap
            if (w <= 64 && a->op == Op::ZExt && a->a->op == Op::Add && a->a->b->isConst() &&
                    a->a->a->umax + (uint64_t)a->a->b->v >= a->a->a->umax &&
                    a->a->a->umax + (uint64_t)a->a->b->v <= (uint64_t)maskOf(a->a->w))
                return mkBin(Op::Add, mkZExt(a->a->a, w), mkConst(a->a->b->v + b->v, w));
            if (a->op == Op::Ite && a->b->isConst() && a->c->isConst())
                return mkIte(a->a, mkConst(a->b->v + b->v, w), mkConst(a->c->v + b->v, w));
        }
        else
        {
            // float constants outwards
            if (a->op == Op::Add && a->b->isConst())
                return mkBin(Op::Add, mkBin(Op::Add, a->a, b), a->b);
            if (b->op == Op::Add && b->b->isConst())
                return mkBin(Op::Add, mkBin(Op::Add, a, b->a), b->b);
            if (a->op == Op::Sub && a->b == b)
                return a->a;
            if (b->op == Op::Sub && b->b == a)
                return b->a;
            if (w <= 64 && (structured(a) || structured(b)))
            {
                // disjoint bits: add is or
                std::vector<Ref> pa, pb;
                pieces(a, pa);
                pieces(b, pb);
                if (pa.size() > 1 || pb.size() > 1)
                {
                    size_t i = 0, j = 0;
                    unsigned oa = 0, ob = 0;
                    bool disjoint = true;
                    while (i < pa.size() && disjoint)
                    {
                        unsigned ra = pa[i]->w - oa, rb = pb[j]->w - ob, n = ra < rb ? ra : rb;
                        bool za = pa[i]->isConst() && ((pa[i]->v >> oa) & maskOf(n)) == 0;
                        bool zb = pb[j]->isConst() && ((pb[j]->v >> ob) & maskOf(n)) == 0;
                        if (!za && !zb)
                            disjoint = false;
                        oa += n;
                        ob += n;
                        if (oa == pa[i]->w)
                            ++i, oa = 0;
                        if (ob == pb[j]->w)
                            ++j, ob = 0;
                    }
                    if (disjoint)
                        return mkBin(Op::Or, a, b);
                }
            }
        }
        break;
    case Op::Sub:
        if (a == b)
            return mkConst(0, w);
        if (w == 1)
            return mkBin(Op::Xor, a, b);
        if (b->isConst())
            return mkBin(Op::Add, a, mkConst(-b->v, w));
        if (a->op == Op::Add && (a->a == b))
            return a->b;
        if (a->op == Op::Add && (a->b == b))
            return a->a;
        if (a->op == Op::Add && a->b->isConst())
            return mkBin(Op::Add, mkBin(Op::Sub, a->a, b), a->b);
        if (b->op == Op::Add && b->b->isConst())
            return mkBin(Op::Add, mkBin(Op::Sub, a, b->a), mkConst(-b->b->v, w));
        if (b->op == Op::Add && b->a == a)
            return mkBin(Op::Sub, mkConst(0, w), b->b);
        if (b->op == Op::Add && b->b == a)
            return mkBin(Op::Sub, mkConst(0, w), b->a);
        if (a->isConst() && a->v == 0 && b->op == Op::Sub)
            return mkBin(Op::Sub, b->b, b->a);
        break;
    case Op::Mul:
        if (b->isConst())
        {
            if (b->v == 0)
                return b;
            if (b->v == 1)
                return a;
            if ((b->v & (b->v - 1)) == 0)
            {
                unsigned n = 0;
                while (!((b->v >> n) & 1))
                    ++n;
                return mkBin(Op::Shl, a, mkConst(n, w));
            }
        }
        break;
    case Op::UDiv:
        if (b->isConst() && b->v && (b->v & (b->v - 1)) == 0)
        {
            unsigned n = 0;
            while (!((b->v >> n) & 1))
                ++n;
            return mkBin(Op::LShr, a, mkConst(n, w));
        }
        if (w <= 64 && b->isConst() && b->v && a->umax < b->umin)
            return mkConst(0, w);
        if (a->op == Op::ZExt && b->isConst() && b->v && b->v <= maskOf(a->a->w))
            return mkZExt(mkBin(Op::UDiv, a->a, mkConst((uint64_t)b->v, a->a->w)), w);
        if (Ref q, r; splitMultiple(a, b, q, r))
            return q;
        break;
    case Op::URem:
        if (b->isConst() && b->v && (b->v & (b->v - 1)) == 0)
            return mkBin(Op::And, a, mkConst(b->v - 1, w));
        if (w <= 64 && b->isConst() && b->v && a->umax < b->umin)
            return a;
        if (a->op == Op::ZExt && b->isConst() && b->v && b->v <= maskOf(a->a->w))
            return mkZExt(mkBin(Op::URem, a->a, mkConst((uint64_t)b->v, a->a->w)), w);
        if (Ref q, r; splitMultiple(a, b, q, r))
            return r;
        break;
    case Op::SDiv:
        if (b->isConst() && b->v == 1)
            return a;
        if (w <= 64 && a->umax < (1ull << (w - 1)) && b->umax < (1ull << (w - 1)))
            return mkBin(Op::UDiv, a, b);
        break;
    case Op::SRem:
        if (w <= 64 && a->umax < (1ull << (w - 1)) && b->umax < (1ull << (w - 1)))
            return mkBin(Op::URem, a, b);
        break;
    case Op::And:
        if (a == b)
            return a;
        if (b->isConst())
        {
            if (b->v == 0)
                return b;
            if (b->v == full)
                return a;
            if (a->op == Op::And && a->b->isConst())
                return mkBin(Op::And, a->a, mkConst(a->b->v & b->v, w));
        }
        if (w == 1 && isNot(a, b))
            return mkFalse();
        if (w == 1)
        {
            // absorption against one level
            if (a->op == Op::And && (a->a == b || a->b == b))
                return a;
            if (b->op == Op::And && (b->a == a || b->b == a))
                return b;
        }
        if (w > 1)
            if (Ref r = piecewise(op, a, b))
                return r;
        break;
    case Op::Or:
        if (a == b)
            return a;
        if (b->isConst())
        {
            if (b->v == 0)
                return a;
            if (b->v == full)
                return b;
        }
        if (w == 1 && isNot(a, b))
            return mkTrue();
        if (w == 1)
        {
            if (a->op == Op::Or && (a->a == b || a->b == b))
                return a;
            if (b->op == Op::Or && (b->a == a || b->b == a))
                return b;
        }
        if (w > 1)
            if (Ref r = piecewise(op, a, b))
                return r;
        break;
    case Op::Xor:
        if (a == b)
            return mkConst(0, w);
        if (b->isConst())
        {
            if (b->v == 0)
                return a;
            if (w == 1)
                return mkNot1(a);
            if (a->op == Op::Xor && a->b->isConst())
                return mkBin(Op::Xor, a->a, mkConst(a->b->v ^ b->v, w));
        }
        if (w == 1 && a->op == Op::Xor && a->b->isConst())
            return mkNot1(mkBin(Op::Xor, a->a, b));
        if (w == 1 && b->op == Op::Xor && b->b->isConst())
            return mkNot1(mkBin(Op::Xor, a, b->a));
        if (w > 1)
            if (Ref r = piecewise(op, a, b))
                return r;
        break;
    case Op::Shl:
        if (b->isConst())
        {
            if (b->v == 0)
                return a;
            if (b->v >= w)
                return mkConst(0, w);
            unsigned n = (unsigned)b->v;
            return mkConcat(mkExtract(a, 0, w - n), mkConst(0, n));
        }
        if (a->isConst() && a->v == 0)
            return a;
        break;
    case Op::LShr:
        if (b->isConst())
        {
            if (b->v == 0)
                return a;
            if (b->v >= w)
                return mkConst(0, w);
            unsigned n = (unsigned)b->v;
            return mkZExt(mkExtract(a, n, w - n), w);
        }
        if (a->isConst() && a->v == 0)
            return a;
        break;
    case Op::AShr:
        if (b->isConst())
        {
            if (b->v == 0)
                return a;
            unsigned n = b->v >= w ? w - 1 : (unsigned)b->v;
            return mkSExt(mkExtract(a, n, w - n), w);
        }
        if (w <= 64 && a->umax < (1ull << (w - 1)))
            return mkBin(Op::LShr, a, b);
        break;
    case Op::Eq:
        if (a == b)
            return mkTrue();
        if (w <= 64 && (a->umax < b->umin || b->umax < a->umin))
            return mkFalse();
        if (b->isConst())
        {
            if (w == 1)
                return b->v ? a : mkNot1(a);
            switch (a->op)
            {
            case Op::ZExt:
                if ((b->v >> a->a->w) != 0)
                    return mkFalse();
                return mkEq(a->a, mkConst(b->v, a->a->w));
            case Op::SExt:
            {
                u128 lo = b->v & maskOf(a->a->w);
                if ((sextTo128(lo, a->a->w) & full) != b->v)
                    return mkFalse();
                return mkEq(a->a, mkConst(lo, a->a->w));
            }
            case Op::Concat:
                return mkAnd(mkEq(a->a, mkConst(b->v >> a->b->w, a->a->w)), mkEq(a->b, mkConst(b->v, a->b->w)));
            case Op::Add:
                if (a->b->isConst())
                    return mkEq(a->a, mkConst(b->v - a->b->v, w));
                break;
            case Op::Sub:
                if (a->a->isConst())
                    return mkEq(a->b, mkConst(a->a->v - b->v, w));
                if (b->v == 0)
                    return mkEq(a->a, a->b);
                break;
            case Op::Xor:
                if (a->b->isConst())
                    return mkEq(a->a, mkConst(a->b->v ^ b->v, w));
                if (b->v == 0)
                    return mkEq(a->a, a->b);
                break;
            case Op::Ite:
                if (a->b->isConst() || a->c->isConst())
                    return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
                break;
            default: break;
            }
        }
        else
        {
            if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->w == b->a->w)
                return mkEq(a->a, b->a);
            if (a->op == Op::SExt && b->op == Op::SExt && a->a->w == b->a->w)
                return mkEq(a->a, b->a);
            if (a->op == Op::Concat && b->op == Op::Concat && a->b->w == b->b->w)
                return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
            if (a->op == Op::Add && b->op == Op::Add)
            {
                if (a->b == b->b)
                    return mkEq(a->a, b->a);
                if (a->a == b->a)
                    return mkEq(a->b, b->b);
            }
            for (int i = 0; i < 2 && w <= 64; ++i, std::swap(a, b))
                if (a->op == Op::Concat && a->a->isConst() && b->op != Op::Concat && (b->umin >> a->b->w) == (b->umax >> a->b->w) &&
                        (b->umin >> a->b->w) == (uint64_t)a->a->v)
                    return mkEq(a->b, mkExtract(b, 0, a->b->w));
            if (w <= 64 && a->op == Op::ZExt && b->umax <= (uint64_t)maskOf(a->a->w))
                return mkEq(a->a, mkExtract(b, 0, a->a->w));
            if (w <= 64 && b->op == Op::ZExt && a->umax <= (uint64_t)maskOf(b->a->w))
                return mkEq(mkExtract(a, 0, b->a->w), b->a);
            if (Ref r = cancelEq(a, b))
                return r;
            if (a->op == Op::Add && a->a == b)
                return mkEq(a->b, mkConst(0, w));
            if (b->op == Op::Add && b->a == a)
                return mkEq(b->b, mkConst(0, w));
            if (w == 1 && isNot(a, b))
                return mkFalse();
        }
        break;
    case Op::Ult:
        if (a == b)
            return mkFalse();
        if (w == 1)
            return mkAnd(mkNot1(a), b);
        if (w <= 64)
        {
            if (a->umax < b->umin)
                return mkTrue();
            if (a->umin >= b->umax)
                return mkFalse();
        }
        if (b->isConst() && b->v == 1)
            return mkEq(a, mkConst(0, w));
        if (b->isConst() && b->v > 1 && (b->v & (b->v - 1)) == 0)
        {
            unsigned n = 0;
            while (!((b->v >> n) & 1))
                ++n;
            return mkEq(mkExtract(a, n, w - n), mkConst(0, w - n));
        }
        if (a->isConst() && a->v == 0)
            return mkNot1(mkEq(b, a));
        if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->w == b->a->w)
            return mkBin(op, a->a, b->a);
        if (w <= 64 && a->op == Op::ZExt && b->isConst())
            return mkBin(op, a->a, mkConst(b->v, a->a->w)); // b <= umax of a here
        if (w <= 64 && b->op == Op::ZExt && a->isConst())
            return mkBin(op, mkConst(a->v, b->a->w), b->a);
        break;
    case Op::Ule:
        if (a == b)
            return mkTrue();
        if (w == 1)
            return mkOr(mkNot1(a), b);
        if (w <= 64)
        {
            if (a->umax <= b->umin)
                return mkTrue();
            if (a->umin > b->umax)
                return mkFalse();
        }
        if (b->isConst() && b->v == 0)
            return mkEq(a, b);
        if (a->isConst() && a->v == 1)
            return mkNot1(mkEq(b, mkConst(0, w)));
        if (a->isConst() && a->v > 1 && (a->v & (a->v - 1)) == 0)
        {
            unsigned n = 0; // at least a power of two: one of the upper bits is set
            while (!((a->v >> n) & 1))
                ++n;
            return mkNot1(mkEq(mkExtract(b, n, w - n), mkConst(0, w - n)));
        }
        if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->w == b->a->w)
            return mkBin(op, a->a, b->a);
        if (w <= 64 && a->op == Op::ZExt && b->isConst())
            return mkBin(op, a->a, mkConst(b->v, a->a->w));
        if (w <= 64 && b->op == Op::ZExt && a->isConst())
            return mkBin(op, mkConst(a->v, b->a->w), b->a);
        break;
    case Op::Slt:
    case Op::Sle:
        if (a == b)
            return op == Op::Sle ? mkTrue() : mkFalse();
        if (w == 1)
        {
            // signed 1-bit: 1 is -1
            return op == Op::Slt ? mkAnd(a, mkNot1(b)) : mkOr(a, mkNot1(b));
        }
        if (w <= 64)
        {
            uint64_t sb = 1ull << (w - 1);
            bool an = a->umax < sb, bn = b->umax < sb;
            bool aneg = a->umin >= sb, bneg = b->umin >= sb;
            if ((an && bn) || (aneg && bneg))
                return mkBin(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
            if (an && bneg)
                return mkFalse();
            if (aneg && bn)
                return mkTrue();
        }
        if (a->op == Op::SExt && b->op == Op::SExt && a->a->w == b->a->w)
            return mkBin(op, a->a, b->a);
        if (a->op == Op::SExt && b->isConst())
        {
            unsigned iw = a->a->w;
            u128 lo = b->v & maskOf(iw);
            if ((sextTo128(lo, iw) & full) == b->v)
                return mkBin(op, a->a, mkConst(lo, iw));
            return (b->v >> (w - 1)) & 1 ? mkFalse() : mkTrue();
        }
        if (b->op == Op::SExt && a->isConst())
        {
            unsigned iw = b->a->w;
            u128 lo = a->v & maskOf(iw);
            if ((sextTo128(lo, iw) & full) == a->v)
                return mkBin(op, mkConst(lo, iw), b->a);
            return (a->v >> (w - 1)) & 1 ? mkTrue() : mkFalse();
        }
        // sign tests
        if (b->isConst() && ((op == Op::Slt && b->v == 0) || (op == Op::Sle && b->v == full)))
            return mkExtract(a, w - 1, 1);
        if (a->isConst() && ((op == Op::Slt && a->v == full) || (op == Op::Sle && a->v == 0)))
            return mkNot1(mkExtract(b, w - 1, 1));
        break;
    default: break;
    }
    return node(op, rw, a, b);
}

// ---- floating point ------------------------------------------------------------------------------------
template <typename T>
static T fromBits(u128 v)
{
    T d;
    if (sizeof(T) == 4)
    {
        uint32_t x = (uint32_t)v;
        memcpy(&d, &x, sizeof d);
    }
    else
    {
        uint64_t x = (uint64_t)v;
        memcpy(&d, &x, sizeof d);
    }
    return d;
}
static u128 toBits(float f)
{
    uint32_t x;
    memcpy(&x, &f, 4);
    return x;
}
static u128 toBits(double f)
{
    uint64_t x;
    memcpy(&x, &f, 8);
    return x;
}

template <typename T>
static u128 fold2(Op op, T x, T y, uint32_t aux)
{
    switch (op)
    {
    case Op::FAdd: return toBits((T)(x + y));
    case Op::FSub: return toBits((T)(x - y));
    case Op::FMul: return toBits((T)(x * y));
    case Op::FDiv: return toBits((T)(x / y));
    case Op::FSqrt: return toBits((T)std::sqrt(x));
    case Op::FRound:
        switch (aux)
        {
        case 0: return toBits((T)std::nearbyint(x));
        case 1: return toBits((T)std::floor(x));
        case 2: return toBits((T)std::ceil(x));
        case 3: return toBits((T)std::trunc(x));
        default: return toBits((T)std::round(x));
        }
    default: die("fold2"); return 0;
    }
}

u128 foldFp(Op op, unsigned w, u128 a, unsigned aw, u128 b, uint32_t aux)
{
    switch (op)
    {
    case Op::FPExt: return toBits((double)fromBits<float>(a));
    case Op::FPTrunc: return toBits((float)fromBits<double>(a));
    case Op::UIToFP:
    {
        u128 x = a & maskOf(aw);
        return w == 32 ? toBits((float)x) : toBits((double)x);
    }
    case Op::SIToFP:
    {
        __int128 x = (__int128)sextTo128(a, aw);
        return w == 32 ? toBits((float)x) : toBits((double)x);
    }
    case Op::FPToUI:
    case Op::FPToSI:
    {
        double d = aw == 32 ? (double)fromBits<float>(a) : fromBits<double>(a);
        if (!(d > -1.7e38 && d < 1.7e38))
            return 0;
        return (u128)(__int128)d & maskOf(w);
    }
    default:
        return aw == 32 ? fold2<float>(op, fromBits<float>(a), fromBits<float>(b), aux)
                        : fold2<double>(op, fromBits<double>(a), fromBits<double>(b), aux);
    }
}

Ref mkFp(Op op, unsigned w, Ref a, Ref b, uint32_t aux)
{
    if (a->isConst() && (!b || b->isConst()))
        return mkConst(foldFp(op, w, a->v, a->w, b ? b->v : 0, aux), w);
    return node(op, w, a, b, nullptr, aux);
}

Ref mkFCmp(unsigned pred, Ref a, Ref b)
{
    // pred: bit0 = eq, bit1 = gt, bit2 = lt, bit3 = unordered (LLVM encoding)
    if (pred == 0)
        return mkFalse();
    if (pred == 15)
        return mkTrue();
    unsigned w = a->w, mant = w == 32 ? 23 : 52;
    auto nan = [&](Ref x) {
        Ref mag = mkExtract(x, 0, w - 1);
        u128 inf = (maskOf(w - 1) >> mant) << mant;
        return mkBin(Op::Ult, mkConst(inf, w - 1), mag);
    };
    Ref un = mkOr(nan(a), nan(b));
    Ref ma = mkExtract(a, 0, w - 1), mb = mkExtract(b, 0, w - 1);
    Ref sa = mkExtract(a, w - 1, 1), sb = mkExtract(b, w - 1, 1);
    Ref bothZero = mkAnd(mkEq(ma, mkConst(0, w - 1)), mkEq(mb, mkConst(0, w - 1)));
    Ref eq = mkOr(mkEq(a, b), bothZero);
    auto less = [&](Ref s1, Ref m1, Ref s2, Ref m2) {
        // s1 neg, s2 pos: true unless both zero; both pos: m1<m2; both neg: m2<m1
        Ref r = mkIte(s1, mkIte(s2, mkBin(Op::Ult, m2, m1), mkTrue()), mkIte(s2, mkFalse(), mkBin(Op::Ult, m1, m2)));
        return mkAnd(r, mkNot1(bothZero));
    };
    Ref res = mkFalse();
    if (pred & 1)
        res = mkOr(res, eq);
    if (pred & 2)
        res = mkOr(res, less(sb, mb, sa, ma));
    if (pred & 4)
        res = mkOr(res, less(sa, ma, sb, mb));
    if (pred == 7)
        return mkNot1(un);
    if (pred == 8)
        return un;
    if (pred & 8)
        return mkOr(un, res);
    return mkAnd(mkNot1(un), res);
}

// ---- evaluation -----------------------------------------------------------------------------------------
static uint32_t gEpoch = 1;
static u128 evalRec(Ref e, const std::vector<uint64_t>& m)
{
    if (e->op == Op::Const)
        return e->v;
    if (e->epoch == gEpoch)
        return e->ev;
    u128 r = 0;
    switch (e->op)
    {
    case Op::Sym: r = e->aux < m.size() ? (u128)m[e->aux] & maskOf(e->w) : 0; break;
    case Op::Concat: r = (evalRec(e->a, m) << e->b->w) | evalRec(e->b, m); break;
    case Op::Extract: r = (evalRec(e->a, m) >> e->aux) & maskOf(e->w); break;
    case Op::ZExt: r = evalRec(e->a, m); break;
    case Op::SExt: r = sextTo128(evalRec(e->a, m), e->a->w) & maskOf(e->w); break;
    case Op::Ite: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->c, m); break;
    default:
        if (e->op >= Op::FAdd && e->op <= Op::FSqrt)
            r = foldFp(e->op, e->w, evalRec(e->a, m), e->a->w, e->b ? evalRec(e->b, m) : 0, e->aux);
        else
        {
            u128 x = evalRec(e->a, m), y = evalRec(e->b, m);
            r = foldBin(e->op, x, y, e->a->w);
        }
    }
    e->epoch = gEpoch;
    e->ev = r;
    return r;
}
u128 evalExpr(Ref e, const std::vector<uint64_t>& model)
{
    if (e->isConst())
        return e->v;
    ++gEpoch;
    return evalRec(e, model);
}

std::string exprStr(Ref e, int depth)
{
    static const char* names[] = {"const", "sym", "concat", "extract", "zext", "sext", "add", "sub", "mul", "udiv",
            "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle",
            "ite", "fadd", "fsub", "fmul", "fdiv", "fptoui", "fptosi", "uitofp", "sitofp", "fpext", "fptrunc",
            "fround", "fsqrt", "agg"};
    char buf[64];
    if (e->op == Op::Const)
    {
        snprintf(buf, sizeof buf, "0x%llx:%u", (unsigned long long)e->v, e->w);
        return buf;
    }
    if (e->op == Op::Sym)
        return gVars[e->aux].name;
    if (depth == 0)
        return "...";
    std::string s = std::string("(") + names[(int)e->op];
    if (e->op == Op::Extract)
        s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->w) + "]";
    if (e->op == Op::ZExt || e->op == Op::SExt)
        s += std::to_string(e->w);
    if (e->op == Op::Agg)
        for (uint32_t i = 0; i < e->aux; ++i)
            s += " " + exprStr(e->elems[i], depth - 1);
    for (Ref x : {e->a, e->b, e->c})
        if (x)
            s += " " + exprStr(x, depth - 1);
    return s + ")";
}
