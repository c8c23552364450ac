#include "solver.h"
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <memory>

SolverStats gSolver;
unsigned gQueryTimeoutMs = 120000;

namespace
{
Z3_context C = nullptr;
Z3_solver S = nullptr;    // incremental SAT-based bit-vector solver
unsigned guards = 0;
struct Guard
{
    Z3_ast lit;
};
std::unordered_map<uint32_t, Z3_ast> gGuards; // expr id -> guard literal
std::vector<Ref> gTouched;

void errh(Z3_context c, Z3_error_code e)
{
    fprintf(stderr, "ENGINE-ERROR: z3: %s\n", Z3_get_error_msg(c, e));
    exit(3);
}

void init()
{
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    C = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(C, errh);
}

Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(C, w); }

Z3_ast b2v(Z3_ast b)
{
    return Z3_mk_ite(C, b, Z3_mk_unsigned_int64(C, 1, bvs(1)), Z3_mk_unsigned_int64(C, 0, bvs(1)));
}

Z3_ast tr(Ref e);
// boolean view of a width-1 expression
std::unordered_map<uint32_t, Z3_ast> gBool;
Z3_ast trBool(Ref e)
{
    auto it = gBool.find(e->id);
    if (it != gBool.end())
        return it->second;
    Z3_ast r;
    if (e->isConst())
        r = e->v ? Z3_mk_true(C) : Z3_mk_false(C);
    else if (e->op == Op::Eq)
    {
        if (e->a->w == 1)
            r = Z3_mk_iff(C, trBool(e->a), trBool(e->b));
        else
            r = Z3_mk_eq(C, tr(e->a), tr(e->b));
    }
    else if (e->op == Op::Ult)
        r = Z3_mk_bvult(C, tr(e->a), tr(e->b));
    else if (e->op == Op::Ule)
        r = Z3_mk_bvule(C, tr(e->a), tr(e->b));
    else if (e->op == Op::Slt)
        r = Z3_mk_bvslt(C, tr(e->a), tr(e->b));
    else if (e->op == Op::Sle)
        r = Z3_mk_bvsle(C, tr(e->a), tr(e->b));
    else if (e->op == Op::And)
    {
        Z3_ast x[2] = {trBool(e->a), trBool(e->b)};
        r = Z3_mk_and(C, 2, x);
    }
    else if (e->op == Op::Or)
    {
        Z3_ast x[2] = {trBool(e->a), trBool(e->b)};
        r = Z3_mk_or(C, 2, x);
    }
    else if (e->op == Op::Xor)
    {
        if (e->b->isConst() && e->b->v == 1)
            r = Z3_mk_not(C, trBool(e->a));
        else
            r = Z3_mk_xor(C, trBool(e->a), trBool(e->b));
    }
    else if (e->op == Op::Ite)
        r = Z3_mk_ite(C, trBool(e->a), trBool(e->b), trBool(e->c));
    else
        r = Z3_mk_eq(C, tr(e), Z3_mk_unsigned_int64(C, 1, bvs(1)));
    Z3_inc_ref(C, r);
    gBool[e->id] = r;
    return r;
}

Z3_sort fps(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(C) : Z3_mk_fpa_sort_64(C); }
Z3_ast toFp(Ref e) { return Z3_mk_fpa_to_fp_bv(C, tr(e), fps(e->w)); }

Z3_ast tr(Ref e)
{
    if (e->z3)
        return (Z3_ast)e->z3;
    Z3_ast r = nullptr;
    switch (e->op)
    {
    case Op::Const:
        if (e->w <= 64)
            r = Z3_mk_unsigned_int64(C, (uint64_t)e->v, bvs(e->w));
        else
            r = Z3_mk_concat(C, Z3_mk_unsigned_int64(C, (uint64_t)(e->v >> 64), bvs(e->w - 64)),
                    Z3_mk_unsigned_int64(C, (uint64_t)e->v, bvs(64)));
        break;
    case Op::Sym: {
        char n[32];
        snprintf(n, sizeof n, "v%u", e->aux);
        r = Z3_mk_const(C, Z3_mk_string_symbol(C, n), bvs(e->w));
        break;
    }
    case Op::Concat: r = Z3_mk_concat(C, tr(e->a), tr(e->b)); break;
    case Op::Extract: r = Z3_mk_extract(C, e->aux + e->w - 1, e->aux, tr(e->a)); break;
    case Op::ZExt:
        if (e->a->w == 1)
            r = Z3_mk_ite(C, trBool(e->a), Z3_mk_unsigned_int64(C, 1, bvs(e->w)), Z3_mk_unsigned_int64(C, 0, bvs(e->w)));
        else
            r = Z3_mk_zero_ext(C, e->w - e->a->w, tr(e->a));
        break;
    case Op::SExt: r = Z3_mk_sign_ext(C, e->w - e->a->w, tr(e->a)); break;
    case Op::Add: r = Z3_mk_bvadd(C, tr(e->a), tr(e->b)); break;
    case Op::Sub: r = Z3_mk_bvsub(C, tr(e->a), tr(e->b)); break;
    case Op::Mul: r = Z3_mk_bvmul(C, tr(e->a), tr(e->b)); break;
    case Op::UDiv: r = Z3_mk_bvudiv(C, tr(e->a), tr(e->b)); break;
    case Op::SDiv: r = Z3_mk_bvsdiv(C, tr(e->a), tr(e->b)); break;
    case Op::URem: r = Z3_mk_bvurem(C, tr(e->a), tr(e->b)); break;
    case Op::SRem: r = Z3_mk_bvsrem(C, tr(e->a), tr(e->b)); break;
    case Op::And: r = e->w == 1 ? b2v(trBool(e)) : Z3_mk_bvand(C, tr(e->a), tr(e->b)); break;
    case Op::Or: r = e->w == 1 ? b2v(trBool(e)) : Z3_mk_bvor(C, tr(e->a), tr(e->b)); break;
    case Op::Xor: r = e->w == 1 ? b2v(trBool(e)) : Z3_mk_bvxor(C, tr(e->a), tr(e->b)); break;
    case Op::Shl: r = Z3_mk_bvshl(C, tr(e->a), tr(e->b)); break;
    case Op::LShr: r = Z3_mk_bvlshr(C, tr(e->a), tr(e->b)); break;
    case Op::AShr: r = Z3_mk_bvashr(C, tr(e->a), tr(e->b)); break;
    case Op::Eq:
    case Op::Ult:
    case Op::Ule:
    case Op::Slt:
    case Op::Sle: r = b2v(trBool(e)); break;
    case Op::Ite: r = e->w == 1 ? b2v(trBool(e)) : Z3_mk_ite(C, trBool(e->a), tr(e->b), tr(e->c)); break;
    case Op::FAdd: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_add(C, Z3_mk_fpa_rne(C), toFp(e->a), toFp(e->b))); break;
    case Op::FSub: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_sub(C, Z3_mk_fpa_rne(C), toFp(e->a), toFp(e->b))); break;
    case Op::FMul: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_mul(C, Z3_mk_fpa_rne(C), toFp(e->a), toFp(e->b))); break;
    case Op::FDiv: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_div(C, Z3_mk_fpa_rne(C), toFp(e->a), toFp(e->b))); break;
    case Op::FSqrt: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_sqrt(C, Z3_mk_fpa_rne(C), toFp(e->a))); break;
    case Op::FRound: {
        Z3_ast m = e->aux == 0 ? Z3_mk_fpa_rne(C) : e->aux == 1 ? Z3_mk_fpa_rtn(C) : e->aux == 2 ? Z3_mk_fpa_rtp(C)
                : e->aux == 3                    ? Z3_mk_fpa_rtz(C)
                                                 : Z3_mk_fpa_rna(C);
        r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_round_to_integral(C, m, toFp(e->a)));
        break;
    }
    case Op::FPExt:
    case Op::FPTrunc:
        r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_float(C, Z3_mk_fpa_rne(C), toFp(e->a), fps(e->w)));
        break;
    case Op::UIToFP:
        r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_unsigned(C, Z3_mk_fpa_rne(C), tr(e->a), fps(e->w)));
        break;
    case Op::SIToFP:
        r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_signed(C, Z3_mk_fpa_rne(C), tr(e->a), fps(e->w)));
        break;
    case Op::FPToUI: r = Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), toFp(e->a), e->w); break;
    case Op::FPToSI: r = Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), toFp(e->a), e->w); break;
    default: fprintf(stderr, "ENGINE-ERROR: cannot translate op %d\n", (int)e->op); exit(3);
    }
    Z3_inc_ref(C, r);
    e->z3 = r;
    return r;
}

void resetSolver()
{
    if (S)
        Z3_solver_dec_ref(C, S);
    S = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_FD"));
    Z3_solver_inc_ref(C, S);
    Z3_params p = Z3_mk_params(C);
    Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), gQueryTimeoutMs);
    Z3_solver_set_params(C, S, p);
    Z3_params_dec_ref(C, p);
    for (auto& g : gGuards)
        Z3_dec_ref(C, g.second);
    gGuards.clear();
    guards = 0;
}

struct CacheEnt
{
    Sat res;
    std::vector<std::pair<uint32_t, uint64_t>> vals;
};
struct KeyHash
{
    size_t operator()(const std::vector<uint32_t>& v) const
    {
        uint64_t h = 1469598103934665603ull;
        for (uint32_t x : v)
        {
            h ^= x;
            h *= 1099511628211ull;
            h ^= h >> 31;
        }
        return h;
    }
};
std::unordered_map<std::vector<uint32_t>, CacheEnt, KeyHash> gCache;
unsigned gUniq = 0;
unsigned gGuardLimit = getenv("ZS_G") ? atoi(getenv("ZS_G")) : 6;

CacheEnt solve(const std::vector<Ref>& slice, const VarSet& vars)
{
    CacheEnt out;
    if (!C)
        init();
    bool fp = false;
    for (Ref e : slice)
        fp |= e->hasFp;
    auto t0 = std::chrono::steady_clock::now();
    Z3_lbool r;
    Z3_solver used;
    if (fp)
    {
        used = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_FPBV"));
        Z3_solver_inc_ref(C, used);
        Z3_params p = Z3_mk_params(C);
        Z3_params_inc_ref(C, p);
        Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), gQueryTimeoutMs);
        Z3_solver_set_params(C, used, p);
        Z3_params_dec_ref(C, p);
        for (Ref e : slice)
            Z3_solver_assert(C, used, trBool(e));
        r = Z3_solver_check(C, used);
    }
    else
    {
        if (!S || guards > gGuardLimit)
            resetSolver();
        used = S;
        std::vector<Z3_ast> as;
        for (Ref e : slice)
        {
            auto it = gGuards.find(e->id);
            if (it == gGuards.end())
            {
                char n[32];
                snprintf(n, sizeof n, "g%u", gUniq++);
                Z3_ast g = Z3_mk_const(C, Z3_mk_string_symbol(C, n), Z3_mk_bool_sort(C));
                Z3_inc_ref(C, g);
                Z3_ast im = Z3_mk_implies(C, g, trBool(e));
                Z3_inc_ref(C, im);
                Z3_solver_assert(C, S, im);
                Z3_dec_ref(C, im);
                it = gGuards.emplace(e->id, g).first;
                ++guards;
            }
            as.push_back(it->second);
        }
        r = Z3_solver_check_assumptions(C, S, (unsigned)as.size(), as.data());
    }
    if (r == Z3_L_TRUE)
    {
        out.res = Sat::Yes;
        ++gSolver.sat;
        Z3_model m = Z3_solver_get_model(C, used);
        Z3_model_inc_ref(C, m);
        for (size_t i = 0; i < vars.w.size(); ++i)
            for (unsigned b = 0; b < 64; ++b)
                if ((vars.w[i] >> b) & 1)
                {
                    uint32_t idx = (uint32_t)(i * 64 + b);
                    Z3_ast v = nullptr;
                    uint64_t val = 0;
                    if (Z3_model_eval(C, m, tr(gVars[idx].e), true, &v) && v)
                    {
                        Z3_inc_ref(C, v);
                        Z3_get_numeral_uint64(C, v, &val);
                        Z3_dec_ref(C, v);
                    }
                    out.vals.push_back({idx, val});
                }
        Z3_model_dec_ref(C, m);
    }
    else if (r == Z3_L_FALSE)
    {
        out.res = Sat::No;
        ++gSolver.unsat;
    }
    else
    {
        out.res = Sat::Unknown;
        ++gSolver.unknown;
        fprintf(stderr, "z3 unknown: %s\n", Z3_solver_get_reason_unknown(C, used));
        if (!fp)
            resetSolver();
    }
    if (fp)
        Z3_solver_dec_ref(C, used);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    gSolver.seconds += dt;
    if (dt > gSolver.maxSeconds)
        gSolver.maxSeconds = dt;
    static const char* slow = getenv("ZS_SLOW"); // debugging aid
    if (slow && dt > atof(slow))
    {
        fprintf(stderr, "SLOW %.2f s, %s:\n", dt, out.res == Sat::Yes ? "sat" : out.res == Sat::No ? "unsat" : "unknown");
        for (Ref e : slice)
            fprintf(stderr, "    %.3000s\n", exprStr(e, 12).c_str());
    }
    ++gSolver.solved;
    return out;
}
} // namespace

Sat solverCheck(const std::vector<Ref>& cons, Ref extra, std::vector<uint64_t>& model)
{
    ++gSolver.queries;
    if (extra->isConst())
    {
        ++gSolver.trivial;
        return extra->v ? Sat::Yes : Sat::No;
    }
    model.resize(gVars.size(), 0);
    if (evalExpr(extra, model))
    {
        ++gSolver.trivial;
        return Sat::Yes;
    }
    for (Ref c : cons)
        if (c == extra)
        {
            ++gSolver.trivial;
            return Sat::Yes;
        }
    Ref neg = mkNot1(extra);
    for (Ref c : cons)
        if (c == neg)
        {
            ++gSolver.trivial;
            return Sat::No;
        }
    // slice
    VarSet vs = *extra->vars;
    std::vector<char> in(cons.size(), 0);
    bool ch = true;
    while (ch)
    {
        ch = false;
        for (size_t i = 0; i < cons.size(); ++i)
            if (!in[i] && cons[i]->vars->intersects(vs))
            {
                in[i] = 1;
                ch |= vs.unite(*cons[i]->vars);
            }
    }
    std::vector<Ref> slice;
    for (size_t i = 0; i < cons.size(); ++i)
        if (in[i])
            slice.push_back(cons[i]);
    slice.push_back(extra);
    std::vector<uint32_t> key;
    for (Ref e : slice)
        key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = gCache.find(key);
    if (it == gCache.end())
        it = gCache.emplace(key, solve(slice, vs)).first;
    else
        ++gSolver.cached;
    const CacheEnt& ce = it->second;
    if (ce.res == Sat::Yes)
    {
        std::vector<uint64_t> nm = model;
        for (auto& v : ce.vals)
            nm[v.first] = v.second;
        for (Ref e : slice)
            if (!evalExpr(e, nm))
            {
                if (e->hasFp)
                {
                    fprintf(stderr, "z3 fp model mismatch\n");
                    return Sat::Unknown;
                }
                fprintf(stderr, "ENGINE-ERROR: model does not satisfy %s\n", exprStr(e).c_str());
                exit(3);
            }
        model.swap(nm);
    }
    return ce.res;
}
