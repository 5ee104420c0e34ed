// The sparse direct solver (C20).
#include "sp.hpp"
#include "sparsesolve.hpp"
using namespace linalgcpp;
using namespace vh;

namespace
{
const char* KEY = "direct";
double vnorm(const std::vector<double>& v) { double s = 0; for (double x : v) s = std::max(s, std::fabs(x)); return s; }

// A well-posed matrix with its exact-enough condition control: row-wise diagonally dominant up to
// row and column permutations and scalings, or a triangular or orthogonal-like one.
struct Sys { SpModel A; std::vector<double> rs, cs; };
SpModel gen_nonsingular(Ctx& c, int n, int* kind)
{
    Rng& r = c.r;
    SpModel A(n, n);
    *kind = r.range(0, 6);
    auto at = [&](int i, int j) -> double& { return A.e[std::make_pair(i, j)]; };
    int per = r.range(0, 4);
    if (*kind <= 2) // dominant
    {
        for (int i = 0; i < n; ++i)
        {
            double s = 0;
            for (int k = 0; k < per && n > 1; ++k) { int j = r.range(0, n - 1); if (j == i || A.e.count(std::make_pair(i, j))) continue; double v = gen_nz(r, 2); at(i, j) = v; s += std::fabs(v); }
            at(i, i) = (r.chance(1, 2) ? 1 : -1) * (s * r.uniform(1.2, 3) + r.uniform(0.5, 2));
        }
    }
    else if (*kind == 3) // lower triangular
        for (int i = 0; i < n; ++i) { at(i, i) = r.range(1, 4); for (int k = 0; k < per; ++k) if (i) at(i, r.range(0, i - 1)) = r.uniform(-0.2, 0.2); }
    else if (*kind == 4) // upper triangular
        for (int i = 0; i < n; ++i) { at(i, i) = r.range(1, 4); for (int k = 0; k < per; ++k) if (i + 1 < n) at(i, r.range(i + 1, n - 1)) = r.uniform(-0.2, 0.2); }
    else if (*kind == 5) // permutation with signs: no diagonal
    { std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; r.shuffle(p); for (int i = 0; i < n; ++i) at(i, p[i]) = r.chance(1, 2) ? 1.0 : -2.0; }
    else // dense
    {
        for (int i = 0; i < n; ++i) { double s = 0; for (int j = 0; j < n; ++j) if (j != i) { at(i, j) = r.uniform(-1, 1); s += std::fabs(at(i, j)); } at(i, i) = s + 1; }
    }
    if (*kind != 5 && r.chance(1, 2)) // permute rows: the diagonal moves away
    {
        std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; r.shuffle(p);
        SpModel B(n, n); for (auto& q : A.e) B.e[std::make_pair(p[q.first.first], q.first.second)] = q.second; A = B;
    }
    if (r.chance(1, 8)) { int i = r.range(0, n - 1), j = r.range(0, n - 1); if (!A.e.count(std::make_pair(i, j))) at(i, j) = 0.0; } // stored zero
    return A;
}
void check_solution(const SpModel& A, bool tr, const std::vector<double>& x, const std::vector<double>& b, const std::vector<double>& rs, const char* what)
{
    // componentwise backward error against the scaled system
    int n = A.m;
    std::vector<long double> y(n, 0), g(n, 0);
    for (auto& p : A.e) { int i = tr ? p.first.second : p.first.first, j = tr ? p.first.first : p.first.second; y[i] += (long double)p.second * x[j]; g[i] += std::fabs(p.second * x[j]); }
    (void)rs;
    double worst = 0; int at = -1;
    for (int i = 0; i < n; ++i)
    {
        CHECK(std::isfinite(x[i]), KEY, "%s: entry %d of the solution is %g", what, i, x[i]);
        double e = (double)std::fabs((double)(y[i] - b[i])), s = (double)g[i] + std::fabs(b[i]);
        double q = e == 0 ? 0 : e / (s > 0 ? s : DBL_MIN);
        if (q > worst) { worst = q; at = i; }
    }
    // a global bound: rounding may spread between rows of comparable scale
    double gm = 0, em = 0; for (int i = 0; i < n; ++i) { gm = std::max(gm, (double)g[i] + std::fabs(b[i])); em = std::max(em, (double)std::fabs((double)(y[i] - b[i]))); }
    CHECK(worst <= 1e-9 || em <= 1e-9 * gm, KEY, "%s: equation %d is off by a relative %.3g (largest residual %.3g, scale %.3g)", what, at, worst, em, gm);
    count("solutions verified");
}
struct Item { std::unique_ptr<SparseSolver> s; SpModel A; bool live; bool zero; };

void use(Ctx& c, const SparseSolver& s, const SpModel& A, const char* what)
{
    Rng& r = c.r;
    int n = A.m;
    for (int tr = 0; tr < 2; ++tr)
    {
        std::vector<double> star = gen_vec<double>(r, n, r.range(0, 2)), b(n, 0.0);
        int bk = r.range(0, 4);
        if (bk == 0) star.assign(n, 0.0);
        for (auto& p : A.e) b[tr ? p.first.second : p.first.first] += p.second * star[tr ? p.first.first : p.first.second];
        if (bk == 1) b = gen_vec<double>(r, n, 2);
        if (bk == 2) { b.assign(n, 0.0); b[r.range(0, n - 1)] = 1.0; }
        Vector<double> B(b), X(n, r.chance(1, 2) ? std::numeric_limits<double>::quiet_NaN() : 3.0);
        const Operator& op = s;
        STEP(tr ? "MultAT" : "Mult");
        if (tr) op.MultAT(B, VectorView<double>(X.begin(), n)); else op.Mult(B, VectorView<double>(X.begin(), n));
        std::vector<double> x(X.begin(), X.end());
        check_solution(A, tr, x, b, b, what);
        for (int i = 0; i < n; ++i) CHECK(B[i] == b[i], KEY, "%s: the right-hand side changed", what);
        // the value-returning forms and a repeated solve agree
        if (r.chance(1, 2))
        {
            STEP("value form");
            Vector<double> Y = tr ? op.MultAT(B) : s.Mult(B);
            CHECK(Y.size() == n, KEY, "%s: result size", what);
            check_solution(A, tr, std::vector<double>(Y.begin(), Y.end()), b, b, what);
            for (int i = 0; i < n; ++i) CHECK(Y[i] == x[i], KEY, "%s: repeated solve differs in entry %d: %.17g then %.17g", what, i, x[i], Y[i]);
        }
    }
}

FAMILY(direct, "direct.history")
{
    Rng& r = c.r;
    std::vector<Item> pool;
    int steps = r.range(1, 9), built = 0;
    for (int q = 0; q < steps; ++q)
    {
        int op = pool.empty() ? 0 : r.range(0, 8);
        Item it; it.zero = false; it.live = true;
        if (op <= 1)
        {
            int n = std::min(c.size(1), 60), kind;
            it.A = gen_nonsingular(c, n, &kind);
            if (r.chance(1, 4)) // scaling of rows and columns
            {
                std::vector<double> a(n), b(n); for (double& v : a) v = std::ldexp(1, r.range(-20, 20)); for (double& v : b) v = std::ldexp(1, r.range(-20, 20));
                if (r.chance(1, 2)) std::fill(a.begin(), a.end(), 1.0); else std::fill(b.begin(), b.end(), 1.0);
                for (auto& p : it.A.e) p.second *= a[p.first.first] * b[p.first.second];
            }
            c.mix(n); c.mix(kind); c.mix(it.A.e.size()); c.nontrivial |= n > 1; ++built;
            c.describe("%d steps, last system n=%d kind %d nnz %zu", steps, n, kind, it.A.e.size());
            STEP("constructor");
            SparseMatrix<double> M = build_csr<double>(r, it.A, true);
            it.s.reset(new SparseSolver(M));
            CHECK(it.s->Rows() == n && it.s->Cols() == n, KEY, "solver is %dx%d, matrix %dx%d", it.s->Rows(), it.s->Cols(), n, n);
            same_sp(wellformed(M, n, n, "matrix given to the solver"), it.A, KEY, "matrix given to the solver");
            use(c, *it.s, it.A, "new solver");
            pool.push_back(std::move(it)); continue;
        }
        int k = r.range(0, (int)pool.size() - 1), l = r.range(0, (int)pool.size() - 1);
        if (op == 2) { STEP("default solver"); it.s.reset(new SparseSolver()); it.zero = true; pool.push_back(std::move(it)); continue; }
        if (op == 3) { STEP("copy"); if (!pool[k].live) continue; it.s.reset(new SparseSolver(*pool[k].s)); it.A = pool[k].A; it.zero = pool[k].zero; pool.push_back(std::move(it)); k = (int)pool.size() - 1; }
        else if (op == 4) { STEP("move"); if (!pool[k].live) continue; it.s.reset(new SparseSolver(std::move(*pool[k].s))); it.A = pool[k].A; it.zero = pool[k].zero; pool[k].live = false; pool.push_back(std::move(it)); k = (int)pool.size() - 1; }
        else if (op == 5) { STEP("swap"); swap(*pool[k].s, *pool[l].s); std::swap(pool[k].A, pool[l].A); std::swap(pool[k].live, pool[l].live); std::swap(pool[k].zero, pool[l].zero); }
        else if (op == 6) { STEP("assign"); if (!pool[l].live) continue; *pool[k].s = *pool[l].s; pool[k].A = pool[l].A; pool[k].live = true; pool[k].zero = pool[l].zero; }
        else if (op == 7) { STEP("move-assign"); if (!pool[l].live || k == l) continue; *pool[k].s = std::move(*pool[l].s); pool[k].A = pool[l].A; pool[k].live = true; pool[k].zero = pool[l].zero; pool[l].live = false; }
        else { STEP("destroy"); pool.erase(pool.begin() + k); continue; }
        c.mix(op);
        if (pool[k].live && !pool[k].zero) use(c, *pool[k].s, pool[k].A, "solver in use");
        else if (pool[k].live && pool[k].zero)
        {
            STEP("empty solver"); CHECK(pool[k].s->Rows() == 0 && pool[k].s->Cols() == 0, KEY, "empty solver is %dx%d", pool[k].s->Rows(), pool[k].s->Cols());
        }
    }
    for (auto& it : pool) if (it.live && !it.zero) use(c, *it.s, it.A, "at the end");
}
} // namespace
