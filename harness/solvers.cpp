// Krylov solvers: convergence reports (C15) and reuse of solver objects (C16).
#include "sp.hpp"
#include <unistd.h>
#include <fcntl.h>
using namespace linalgcpp;
using namespace vh;

namespace
{
double norm2(const std::vector<double>& v) { long double s = 0; for (double x : v) s += (long double)x * x; return (double)std::sqrt(s); }

// What a solve writes to standard output.
struct Watch
{
    int fd = -1, file = -1;
    Watch()
    {
        fflush(stdout); file = open((std::string(scratch_dir()) + "/stdout").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (file >= 0) { fd = dup(1); dup2(file, 1); }
    }
    long bytes() { restore(); long n = file >= 0 ? (long)lseek(file, 0, SEEK_END) : -1; if (file >= 0) close(file); file = -1; if (n >= 0) count("monitor: standard output of a solve watched"); return n; }
    void restore() { if (fd >= 0) { std::cout.flush(); fflush(stdout); dup2(fd, 1); close(fd); fd = -1; } }
    ~Watch() { restore(); if (file >= 0) close(file); }
};

// An operator that records every application.
struct Recorded : public Operator
{
    Ref A; mutable long applied; mutable bool finite;
    explicit Recorded(const Ref& R) : Operator(R.m, R.n), A(R), applied(0), finite(true) {}
    void Mult(const VectorView<double>& in, VectorView<double> out) const override
    {
        ++applied; count("monitor: operator application");
        for (int i = 0; i < A.n; ++i) if (!std::isfinite(in[i])) finite = false;
        for (int i = 0; i < A.m; ++i) { double s = 0; for (int j = 0; j < A.n; ++j) s += A(i, j) * in[j]; out[i] = s; }
    }
    using Operator::Mult;
};

Ref orth(Rng& r, int n)
{
    Ref Q(n, n); for (int i = 0; i < n; ++i) Q(i, i) = 1;
    for (int q = 0; q < std::min(n, 4); ++q)
    {
        std::vector<double> v(n); double s = 0;
        for (double& x : v) { x = r.uniform(-1, 1); s += x * x; }
        if (s == 0) continue;
        for (int j = 0; j < n; ++j) { double t = 0; for (int i = 0; i < n; ++i) t += v[i] * Q(i, j); t *= 2 / s; for (int i = 0; i < n; ++i) Q(i, j) -= t * v[i]; }
    }
    return Q;
}
Ref sym(Rng& r, const std::vector<double>& d)
{
    int n = (int)d.size(); Ref Q = orth(r, n), A(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { long double t = 0; for (int k = 0; k < n; ++k) t += (long double)Q(i, k) * d[k] * Q(j, k); A(i, j) = A(j, i) = (double)t; }
    return A;
}

struct System { Ref A; double lo, hi; bool spd; int kind; };
System gen_system(Ctx& c, bool spd, int cap)
{
    Rng& r = c.r;
    System S; int n = std::min(c.size(r.chance(1, 20) ? 0 : 1), cap);
    S.kind = r.range(0, 6); S.spd = spd;
    std::vector<double> d(n);
    double cond = std::pow(10.0, r.uniform(0, 3)), scale = r.chance(1, 4) ? std::pow(10.0, r.range(-6, 6)) : 1.0;
    if (S.kind == 0) { S.A = Ref(n, n); for (int i = 0; i < n; ++i) { S.A(i, i) = 2.5; if (i + 1 < n) S.A(i, i + 1) = S.A(i + 1, i) = -1; } S.lo = 0.5; S.hi = 4.5; }
    else if (S.kind == 1) { S.A = Ref(n, n); for (int i = 0; i < n; ++i) S.A(i, i) = 1.0; S.lo = S.hi = 1; } // identity
    else if (S.kind == 2) { S.A = Ref(n, n); for (int i = 0; i < n; ++i) S.A(i, i) = r.range(1, 4); S.lo = 1; S.hi = 4; } // few eigenvalues
    else
    {
        for (int i = 0; i < n; ++i) d[i] = std::pow(cond, -r.unit());
        S.A = sym(r, d); S.lo = 1 / cond; S.hi = 1;
    }
    if (!spd && S.kind >= 2)
    {
        if (S.kind == 2) { for (int i = 0; i < n; ++i) if (r.chance(1, 2)) S.A(i, i) = -S.A(i, i); }
        else { for (double& v : d) if (r.chance(1, 2)) v = -v; S.A = sym(r, d); }
    }
    else if (!spd && S.kind == 0 && r.chance(1, 2)) { for (double& v : S.A.a) v = -v; }
    for (double& v : S.A.a) v *= scale;
    S.lo *= scale; S.hi *= scale;
    return S;
}
Ref gen_prec(Rng& r, int n, double* mlo, double* mhi)
{
    double sc = r.chance(1, 4) ? std::pow(10.0, r.range(-4, 4)) : 1.0;
    Ref M(n, n);
    if (r.chance(1, 2)) { for (int i = 0; i < n; ++i) M(i, i) = sc * r.uniform(0.3, 3.0); *mlo = 0.3 * sc; *mhi = 3 * sc; }
    else { std::vector<double> d(n); for (double& v : d) v = sc * r.uniform(0.2, 2); M = sym(r, d); *mlo = 0.2 * sc; *mhi = 2 * sc; }
    return M;
}
std::vector<double> residual(const Ref& A, const std::vector<double>& x, const std::vector<double>& b)
{
    std::vector<double> y(b.size());
    for (int i = 0; i < A.m; ++i) { long double s = b[i]; for (int j = 0; j < A.n; ++j) s -= (long double)A(i, j) * x[j]; y[i] = (double)s; }
    return y;
}
double mnorm(const Ref* M, const std::vector<double>& v)
{
    if (!M) return norm2(v);
    long double s = 0; for (int i = 0; i < M->m; ++i) for (int j = 0; j < M->n; ++j) s += (long double)v[i] * (*M)(i, j) * v[j];
    return (double)std::sqrt(std::max((long double)0, s));
}

enum Kind { CGK, PCGK, MINRESK, PMINRESK };
std::unique_ptr<Solver> make(Kind k, const Operator& A, const Operator& M, int maxit, double rel, double abs_, bool say)
{
    switch (k)
    {
        case CGK: return std::unique_ptr<Solver>(new PCGSolver(A, maxit, rel, abs_, say));
        case PCGK: return std::unique_ptr<Solver>(new PCGSolver(A, M, maxit, rel, abs_, say));
        case MINRESK: return std::unique_ptr<Solver>(new MINRESSolver(A, maxit, rel, abs_, say));
        default: return std::unique_ptr<Solver>(new PMINRESSolver(A, M, maxit, rel, abs_, say));
    }
}
const char* KN[] = {"CG", "PCG", "MINRES", "PMINRES"};

// Iterations that theory grants for reducing the residual by eps at condition number kappa.
int enough(bool definite, double kappa, double eps)
{
    if (!(eps < 1)) return 2;
    double k = std::max(1.0, definite ? std::sqrt(kappa) : kappa), q = (k - 1) / (k + 1);
    if (q <= 0) return definite ? 10 : 12;
    double it = std::log(2 * std::sqrt(kappa) / eps) / -std::log(q) * (definite ? 1 : 2);
    return (int)std::min(1e6, 2 * it + 12);
}

void judge(const char* name, const System& S, bool definite, const Ref* M, double mlo, double mhi, const std::vector<double>& b, const std::vector<double>& x0,
           const std::vector<double>& x, int iters, int maxit, double rel, double abs_, const std::vector<double>* star)
{
    const int n = S.A.m;
    for (int i = 0; i < n; ++i) CHECK(std::isfinite(x[i]), "krylov-finite", "%s: entry %d of the result is %g after %d of %d iterations", name, i, x[i], iters, maxit);
    if (iters >= 0) CHECK(iters <= maxit, "krylov-count", "%s: reports %d iterations with a limit of %d", name, iters, maxit);
    double r0 = mnorm(M, residual(S.A, x0, b)), r1 = mnorm(M, residual(S.A, x, b));
    double tol = std::max(rel * r0, abs_);
    double xs = std::max(norm2(x0), norm2(x)); if (star) xs = std::max(xs, norm2(*star));
    // attainable accuracy of a finite precision recurrence
    double floor_ = 1e-13 * (std::min(maxit, 200) + 10) * (S.hi * xs + norm2(b)) * std::sqrt(mhi) + 1e-140;
    bool ok = r1 <= tol * (1 + 1e-6) + floor_;
    if (iters >= 0 && iters < maxit) CHECK(ok, "krylov-residual", "%s: stopped after %d of %d iterations with residual %.3g, tolerance %.3g (initial %.3g, rounding floor %.1g)", name, iters, maxit, r1, tol, r0, floor_);
    // enough iterations, well conditioned
    const double kappa = S.hi / S.lo * (M ? mhi / mlo : 1);
    const int need = r0 > 0 ? enough(definite, kappa, std::max(tol, floor_) / r0) : 2;
    if (maxit >= std::min(need, 10 * n + 300)) CHECK(ok, "krylov-unsolved", "%s: %d iterations allowed, n=%d, residual %.3g, tolerance %.3g (initial %.3g)", name, maxit, n, r1, tol, r0);
    if (need < 10 * n + 300) count("solves judged against the theoretical iteration count");
    // a tolerance far above rounding is noticed when it is met
    if (tol > 1e3 * floor_ && maxit > need) CHECK(iters <= need, "krylov-unnoticed", "%s: %d iterations for tolerance %.3g (initial residual %.3g, condition %.3g), %d are enough", name, iters, tol, r0, kappa, need);
}

FAMILY(conv, "krylov.converge")
{
    Rng& r = c.r;
    Kind k = (Kind)r.range(0, 3);
    System S = gen_system(c, k <= PCGK, 40);
    int n = S.A.m;
    double mlo = 1, mhi = 1;
    Ref Mr = gen_prec(r, n, &mlo, &mhi);
    bool prec = k == PCGK || k == PMINRESK;
    if (!prec) mhi = 1;
    // right-hand side and exact solution
    std::vector<double> star = gen_vec<double>(r, n, r.range(0, 2));
    int bk = r.range(0, 5);
    if (bk == 0) star.assign(n, 0.0);
    if (bk == 1) { double v = gen_val(r, 2); for (double& x : star) x = v; }
    if (bk == 2) { star.assign(n, 0.0); if (n) star[r.range(0, n - 1)] = 1.0; }
    std::vector<double> b = matvec(S.A, star);
    double bs = r.chance(1, 4) ? std::pow(10.0, r.range(-6, 6)) : 1.0;
    for (double& v : b) v *= bs; for (double& v : star) v *= bs;
    if (r.chance(1, 25)) { bs = std::pow(10.0, -r.range(20, 200)); for (double& v : b) v *= bs; for (double& v : star) v *= bs; } // squares underflow
    int gk = r.range(0, 4);
    std::vector<double> x0(n, 0.0);
    if (gk == 1) x0 = gen_vec<double>(r, n, 2);
    if (gk == 2) x0 = star;
    if (gk == 3) { x0 = star; for (double& v : x0) v *= 1 + 1e-9 * r.uniform(-1, 1); }
    if (gk == 4) { x0 = gen_vec<double>(r, n, 2); for (double& v : x0) v *= 1e4; }
    int maxit; switch (r.range(0, 5)) { case 0: maxit = r.range(0, 2); break; case 1: maxit = r.range(0, n + 2); break; case 2: maxit = r.range(10, 120); break; default: maxit = 10 * n + 300; }
    double rel = 0, abs_ = 0;
    switch (r.range(0, 6))
    {
        case 0: rel = abs_ = 1e-16; break;
        case 1: rel = 0; abs_ = 0; break;
        case 2: rel = std::pow(10.0, r.range(-10, -1)); break;
        case 3: abs_ = std::pow(10.0, r.range(-10, 3)); break;
        case 4: rel = 1e-8; abs_ = 1e-8; break;
        case 5: rel = r.uniform(0.01, 1.0); break;
        default: rel = 1e-12; abs_ = 1e-14; break;
    }
    const bool talk = r.chance(1, 6), say = talk && r.chance(1, 2); // progress output changes nothing
    c.mix(n); c.mix(k); c.mix(maxit); c.mixd(rel); c.mixd(abs_); for (int i = 0; i < std::min(n, 4); ++i) { c.mixd(S.A(i, i)); c.mixd(b[i]); c.mixd(x0[i]); }
    c.nontrivial = n > 1;
    c.describe("%s n=%d kind=%d b=%d guess=%d maxit=%d rel=%g abs=%g scale=%g", KN[k], n, S.kind, bk, gk, maxit, rel, abs_, bs);
    // the operator through one of the library's own classes, or a recording one
    Recorded rec(S.A), mrec(Mr);
    SpModel sm(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (S.A(i, j) != 0) sm.e[std::make_pair(i, j)] = S.A(i, j);
    SparseMatrix<double> As = build_csr<double>(r, sm, true);
    DenseMatrix Ad = dense_of(S.A), Md = dense_of(Mr);
    int which = r.range(0, 2);
    const Operator& A = which == 0 ? static_cast<const Operator&>(rec) : which == 1 ? static_cast<const Operator&>(As) : Ad;
    const Operator& M = which == 0 ? static_cast<const Operator&>(mrec) : Md;
    std::vector<double> bb(b);
    Vector<double> B(b), X(x0);
    STEP("solver.Mult");
    std::unique_ptr<Solver> solver = make(k, A, M, maxit, rel, abs_, say);
    {
        Watch w;
        static_cast<const Operator&>(*solver).Mult(B, VectorView<double>(X.begin(), X.size()));
        long out = w.bytes();
        if (out >= 0 && solver->GetNumIterations() > 1) CHECK((out > 0) == say, "krylov-verbose", "%s: verbose is %d and %ld bytes were printed in %d iterations", KN[k], say, out, solver->GetNumIterations());
    }
    std::vector<double> x(X.begin(), X.end());
    judge(KN[k], S, k <= PCGK, prec ? &Mr : nullptr, mlo, mhi, b, x0, x, solver->GetNumIterations(), maxit, rel, abs_, &star);
    for (int i = 0; i < n; ++i) CHECK(B[i] == bb[i], "krylov-rhs", "%s: right-hand side entry %d changed", KN[k], i);
    if (which == 0)
    {
        CHECK(rec.finite && mrec.finite, "krylov-finite", "%s: the operator was applied to a vector that is not finite", KN[k]);
        CHECK(rec.applied <= maxit + 1, "krylov-count", "%s: the operator was applied %ld times with a limit of %d iterations", KN[k], rec.applied, maxit);
        if (gk && norm2(x0) > 0) CHECK(rec.applied >= solver->GetNumIterations() + 1L, "krylov-count", "%s: %d iterations reported, the operator was applied %ld times, the initial residual included", KN[k], solver->GetNumIterations(), rec.applied);
        if (solver->GetNumIterations() < maxit) CHECK(rec.applied <= solver->GetNumIterations() + 1L || solver->GetNumIterations() == 0, "krylov-count", "%s: %ld operator applications, %d iterations reported", KN[k], rec.applied, solver->GetNumIterations());
    }
    // the result through another call form; the count is not available there
    if (r.chance(1, 2))
    {
        Vector<double> Y(x0); VectorView<double> yv(Y.begin(), Y.size());
        STEP("free function, output argument");
        switch (k)
        {
            case CGK: CG(A, B, yv, maxit, rel, abs_, !say && talk); break;
            case PCGK: PCG(A, M, B, yv, maxit, rel, abs_, !say && talk); break;
            case MINRESK: MINRES(A, B, yv, maxit, rel, abs_, !say && talk); break;
            default: PMINRES(A, M, B, yv, maxit, rel, abs_, !say && talk); break;
        }
        judge("free function", S, k <= PCGK, prec ? &Mr : nullptr, mlo, mhi, b, x0, std::vector<double>(Y.begin(), Y.end()), -1, maxit, rel, abs_, &star);
        for (int i = 0; i < n; ++i) CHECK(Y[i] == x[i], "krylov-form", "%s: the free function returns %.17g in entry %d, the solver object %.17g", KN[k], Y[i], i, x[i]);
    }
    else if (maxit >= 10 * n + 300)
    {
        STEP("free function, by value");
        Vector<double> Y = k == CGK ? CG(A, B, maxit, rel, abs_) : k == PCGK ? PCG(A, M, B, maxit, rel, abs_) : k == MINRESK ? MINRES(A, B, maxit, rel, abs_) : PMINRES(A, M, B, maxit, rel, abs_);
        CHECK(Y.size() == n, "krylov-form", "free function result has size %d", Y.size());
        // it starts from its own random guess in [0,1]
        std::vector<double> bound(n, std::sqrt(1.0));
        double r0max = (S.hi * std::sqrt((double)n) + norm2(b)) * std::sqrt(mhi);
        std::vector<double> y(Y.begin(), Y.end());
        for (double v : y) CHECK(std::isfinite(v), "krylov-finite", "free function result is not finite");
        double r1 = mnorm(prec ? &Mr : nullptr, residual(S.A, y, b));
        CHECK(r1 <= std::max(rel * r0max * 2, abs_) * (1 + 1e-6) + 1e-13 * 210 * (S.hi * (std::sqrt((double)n) + norm2(star)) + norm2(b)) * std::sqrt(mhi) + 1e-140, "krylov-unsolved", "free function: residual %.3g", r1);
    }
}

// ------------------------------------------------------------------ reuse (C16)
typedef double (*DotFn)(const VectorView<double>&, const VectorView<double>&);
long dots_used;
double twice_dot(const VectorView<double>& a, const VectorView<double>& b) { ++dots_used; return 2.0 * InnerProduct(a, b); }
template <typename S> struct Make;
template <> struct Make<PCGSolver>
{
    static PCGSolver go(const Operator& A, const Operator* M, int it, double rel, double ab, DotFn dot = InnerProduct) { if (M) return PCGSolver(A, *M, it, rel, ab, false, dot); return PCGSolver(A, it, rel, ab, false, dot); }
    static bool prec(PCGSolver& s, const Operator& M) { s.SetPreconditioner(M); return true; }
    static bool may_lack() { return true; }
};
template <> struct Make<MINRESSolver>
{
    static MINRESSolver go(const Operator& A, const Operator*, int it, double rel, double ab, DotFn dot = InnerProduct) { return MINRESSolver(A, it, rel, ab, false, dot); }
    static bool prec(MINRESSolver&, const Operator&) { return false; }
    static bool may_lack() { return true; }
};
template <> struct Make<PMINRESSolver>
{
    static PMINRESSolver go(const Operator& A, const Operator* M, int it, double rel, double ab, DotFn dot = InnerProduct) { return PMINRESSolver(A, *M, it, rel, ab, false, dot); }
    static bool prec(PMINRESSolver&, const Operator&) { return false; }
    static bool may_lack() { return false; }
};

template <typename S>
void reuse(Ctx& c, bool spd)
{
    Rng& r = c.r;
    int n = std::max(1, std::min(c.size(1), 24));
    std::vector<std::unique_ptr<Recorded>> ops, precs;
    for (int i = 0; i < 3; ++i)
    {
        std::vector<double> d(n); for (double& v : d) { v = std::pow(10.0, r.uniform(-2, 0)); if (!spd && r.chance(1, 2)) v = -v; }
        ops.emplace_back(new Recorded(sym(r, d)));
        double lo, hi; precs.emplace_back(new Recorded(gen_prec(r, n, &lo, &hi)));
    }
    struct Set { int op, prec, it; double rel, ab; } st;
    auto rnd = [&](Set& s) { s.it = r.chance(1, 4) ? r.range(0, 3) : r.range(1, 2 * n + 5); s.rel = r.chance(1, 3) ? 0.0 : std::pow(10.0, r.range(-9, -1)); s.ab = r.chance(1, 2) ? 0.0 : std::pow(10.0, r.range(-9, 0)); };
    st.op = r.range(0, 2); st.prec = Make<S>::may_lack() ? r.range(-1, 2) : r.range(0, 2); rnd(st);
    if (!std::is_same<S, PCGSolver>::value && !std::is_same<S, PMINRESSolver>::value) st.prec = -1;
    bool custom = r.chance(1, 3), verbose = false;
    DotFn dot = custom ? twice_dot : static_cast<DotFn>(InnerProduct);
    S sol = Make<S>::go(*ops[st.op], st.prec < 0 ? nullptr : precs[st.prec].get(), st.it, st.rel, st.ab, dot);
    c.describe("n=%d history:", n); c.mix(n);
    c.nontrivial = false;
    int solves = 0;
    S other = Make<S>::go(*ops[0], precs[0].get(), 3, 1e-3, 0.0); // a second object with a life of its own
    for (int s = 0; s < 10; ++s)
    {
        int act = r.range(0, 12);
        c.mix(act); c.describe(" %d", act);
        switch (act)
        {
            case 0: STEP("SetMaxIter"); rnd(st); sol.SetMaxIter(st.it); sol.SetRelTol(st.rel); sol.SetAbsTol(st.ab); break;
            case 1: STEP("SetRelTol"); st.rel = std::pow(10.0, r.range(-8, -1)); sol.SetRelTol(st.rel); break;
            case 2: STEP("SetAbsTol"); st.ab = std::pow(10.0, r.range(-8, 0)); sol.SetAbsTol(st.ab); break;
            case 3: STEP("SetOperator"); st.op = r.range(0, 2); sol.SetOperator(*ops[st.op]); break;
            case 4: { int p = r.range(0, 2); if (Make<S>::prec(sol, *precs[p])) st.prec = p; break; }
            case 5: { STEP("copy"); S t(sol); sol.SetMaxIter(1); sol = t; break; }
            case 6: { STEP("move"); S t(std::move(sol)); sol = std::move(t); break; }
            case 10:
            {
                STEP("trade settings");
                Set o; o.op = r.range(0, 2); o.prec = st.prec < 0 ? -1 : r.range(0, 2); rnd(o);
                const bool od = r.chance(1, 2); DotFn odot = od ? twice_dot : static_cast<DotFn>(InnerProduct);
                S t = Make<S>::go(*ops[o.op], o.prec < 0 ? nullptr : precs[o.prec].get(), o.it, o.rel, o.ab, odot);
                Vector<double> y(n, 0.25), bb(n, 1.0); t.Mult(bb, VectorView<double>(y.begin(), n));
                const int ni = sol.GetNumIterations(), nt = t.GetNumIterations(), how = r.range(0, 3);
                bool tv = r.chance(1, 2); t.SetVerbose(tv);
                if (how == 0) swap(sol, t); else if (how == 1) swap(t, sol); else if (how == 2) { S u(sol); sol = t; t = u; } else { S u(std::move(sol)); sol = std::move(t); t = std::move(u); }
                CHECK(sol.GetNumIterations() == nt && t.GetNumIterations() == ni, "reuse", "after %s the iteration counts are %d and %d instead of %d and %d", how < 2 ? "a swap" : "an exchange", sol.GetNumIterations(), t.GetNumIterations(), nt, ni);
                // the other one now has the settings this one had
                std::swap(st, o);
                S f = Make<S>::go(*ops[o.op], o.prec < 0 ? nullptr : precs[o.prec].get(), o.it, o.rel, o.ab, dot);
                Vector<double> ya(n, 0.5), yb(n, 0.5);
                t.Mult(bb, VectorView<double>(ya.begin(), n)); f.Mult(bb, VectorView<double>(yb.begin(), n));
                CHECK(t.GetNumIterations() == f.GetNumIterations(), "reuse", "the object traded away took %d iterations, a new one %d", t.GetNumIterations(), f.GetNumIterations());
                for (int i = 0; i < n; ++i) CHECK(ya[i] == yb[i] || (ya[i] != ya[i] && yb[i] != yb[i]), "reuse", "entry %d: the object traded away returns %.17g, a new one %.17g", i, ya[i], yb[i]);
                dot = odot; custom = od; verbose = tv; count("solvers that traded settings");
                break;
            }
            case 7: { STEP("swap"); S t = Make<S>::go(*ops[1], precs[1].get(), 2, 0.5, 0.0); swap(t, sol); swap(sol, t); break; }
            case 8:
            {
                // an unrelated object solves in between, and a copy is reconfigured
                STEP("bystander"); Vector<double> y(n, 0.5), bb(n, 1.0); other.Mult(bb, VectorView<double>(y.begin(), n));
                S t(sol); t.SetMaxIter(7); t.SetRelTol(0.9); t.SetOperator(*ops[(st.op + 1) % 3]); t.Mult(bb, VectorView<double>(y.begin(), n));
                break;
            }
            case 9: STEP("SetVerbose"); verbose = r.chance(1, 2); sol.SetVerbose(verbose); break;
            default: break;
        }
        CHECK(sol.GetOperator() == ops[st.op].get(), "reuse-operator", "GetOperator is not the operator that was set");
        CHECK(sol.Rows() == n && sol.Cols() == n, "reuse-operator", "solver is %dx%d, operator %dx%d", sol.Rows(), sol.Cols(), n, n);
        if (act < 6 && r.chance(1, 2)) continue;
        std::vector<double> b = gen_vec<double>(r, n, 2), x0 = r.chance(1, 2) ? gen_vec<double>(r, n, 2) : std::vector<double>(n, 0.0);
        if (r.chance(1, 10)) b.assign(n, 0.0);
        Vector<double> B(b), X(x0), Y(x0);
        for (auto& o : ops) o->applied = 0; for (auto& o : precs) o->applied = 0;
        STEP("solve with the used object"); dots_used = 0;
        {
            Watch w;
            sol.Mult(B, VectorView<double>(X.begin(), n));
            long out = w.bytes();
            if (out >= 0 && sol.GetNumIterations() > 1) CHECK((out > 0) == verbose, "reuse-verbose", "verbose is %d and %ld bytes were printed in %d iterations", verbose, out, sol.GetNumIterations());
        }
        for (int q = 0; q < 3; ++q)
        {
            if (q != st.op) CHECK(ops[q]->applied == 0, "reuse-operator", "an operator that is not set was applied %ld times", ops[q]->applied);
            if (q != st.prec) CHECK(precs[q]->applied == 0, "reuse-operator", "a preconditioner that is not set was applied %ld times", precs[q]->applied);
        }
        CHECK(ops[st.op]->applied >= 1, "reuse-operator", "the operator that is set was not applied");
        if (st.prec >= 0) CHECK(precs[st.prec]->applied >= 1, "reuse-operator", "the preconditioner that is set was not applied");
        STEP("solve with a new object");
        CHECK((dots_used > 0) == custom || (custom && sol.GetNumIterations() == 0), "reuse-dot", "%s inner product given to the constructor, it was used %ld times", custom ? "an" : "no", dots_used);
        S fresh = Make<S>::go(*ops[st.op], st.prec < 0 ? nullptr : precs[st.prec].get(), st.it, st.rel, st.ab, dot);
        fresh.Mult(B, VectorView<double>(Y.begin(), n));
        CHECK(sol.GetNumIterations() == fresh.GetNumIterations(), "reuse", "the used solver took %d iterations, a new one %d", sol.GetNumIterations(), fresh.GetNumIterations());
        for (int i = 0; i < n; ++i) CHECK(X[i] == Y[i] || (X[i] != X[i] && Y[i] != Y[i]), "reuse", "entry %d: used solver %.17g, new solver %.17g", i, X[i], Y[i]);
        if (++solves > 1 && n > 1) c.nontrivial = true;
        if (r.chance(1, 3))
        {
            // by value through the operator interface starts from a given size only
            STEP("repeat"); Vector<double> Z(x0); sol.Mult(B, VectorView<double>(Z.begin(), n));
            for (int i = 0; i < n; ++i) CHECK(Z[i] == X[i] || (X[i] != X[i] && Z[i] != Z[i]), "reuse", "repeating the solve differs in entry %d", i);
        }
    }
}
FAMILY(reuse_pcg, "reuse.pcg") { reuse<PCGSolver>(c, true); }
FAMILY(reuse_minres, "reuse.minres") { reuse<MINRESSolver>(c, false); }
FAMILY(reuse_pminres, "reuse.pminres") { reuse<PMINRESSolver>(c, false); }
} // namespace
