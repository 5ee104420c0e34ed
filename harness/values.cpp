// Value semantics (C02): a pool of objects is copied, moved, swapped, assigned, changed and destroyed
// at random; after every step every object in the pool is compared with its own model.
#include "sp.hpp"
#include "sparsesolve.hpp"
using namespace linalgcpp;
using namespace vh;

namespace
{
const char* KEY = "value";

template <typename V, typename W>
void same_list(const V& got, const W& want, const char* what)
{
    CHECK((long)got.size() == (long)want.size(), KEY, "%s: %ld entries, expected %ld", what, (long)got.size(), (long)want.size());
    for (int i = 0; i < (int)want.size(); ++i) CHECK((double)got[i] == (double)want[i], KEY, "%s: entry %d is %.17g, expected %.17g", what, i, (double)got[i], (double)want[i]);
}

template <typename T> struct VecT
{
    typedef Vector<T> X; typedef std::vector<T> M;
    static const bool assignable = true; static const char* name() { return "Vector"; }
    static std::unique_ptr<X> make(Ctx& c, M& m) { m = gen_vec<T>(c.r, c.size(), 0); if (c.r.chance(1, 4)) { std::unique_ptr<X> p(new X((int)m.size())); for (size_t i = 0; i < m.size(); ++i) (*p)[i] = m[i]; return p; } return std::unique_ptr<X>(new X(m)); }
    static void mutate(Ctx& c, X& x, M& m)
    {
        Rng& r = c.r;
        if (r.chance(1, 4)) { int n = c.size(); x.SetSize(n, (T)3); m.resize(n, (T)3); return; }
        if (m.empty()) return;
        if (r.chance(1, 3)) { x *= (T)2; for (T& v : m) v *= 2; return; }
        int i = r.range(0, (int)m.size() - 1); x[i] = (T)9; m[i] = (T)9;
    }
    static void check(Ctx&, X& x, const M& m, const char* what) { same_list(x, m, what); CHECK(x.data().size() == m.size() && (m.empty() || x.begin() == x.data().data()), KEY, "%s: the vector does not view its own storage", what); }
};
template <typename T> struct BlockVecT
{
    struct M { std::vector<int> o; std::vector<T> v; };
    typedef BlockVector<T> X; static const bool assignable = true; static const char* name() { return "BlockVector"; }
    static std::unique_ptr<X> make(Ctx& c, M& m)
    {
        m.o.assign(1, 0); for (int k = c.r.range(0, 5); k > 0; --k) m.o.push_back(m.o.back() + c.r.range(0, 6));
        m.v = gen_vec<T>(c.r, m.o.back(), 0);
        if (c.r.chance(1, 2)) { std::unique_ptr<X> p(new X(m.o)); for (size_t i = 0; i < m.v.size(); ++i) (*p)[i] = m.v[i]; return p; }
        return std::unique_ptr<X>(new X(Vector<T>(m.v), m.o));
    }
    static void mutate(Ctx& c, X& x, M& m)
    {
        int nb = (int)m.o.size() - 1; if (!nb) return;
        int b = c.r.range(0, nb - 1); VectorView<T> w(x.GetBlock(b));
        w = (T)(b + 20); for (int i = m.o[b]; i < m.o[b + 1]; ++i) m.v[i] = (T)(b + 20);
    }
    static void check(Ctx&, X& x, const M& m, const char* what)
    {
        same_list(x, m.v, what); CHECK(x.GetOffsets() == m.o, KEY, "%s: offsets differ", what);
        for (int b = 0; b + 1 < (int)m.o.size(); ++b) { VectorView<T> w(x.GetBlock(b)); CHECK(w.begin() == x.begin() + m.o[b] && w.size() == m.o[b + 1] - m.o[b], KEY, "%s: block %d is not part of the vector", what, b); }
    }
};
struct DenseT
{
    typedef DenseMatrix X; typedef Ref M; static const bool assignable = true; static const char* name() { return "DenseMatrix"; }
    static std::unique_ptr<X> make(Ctx& c, M& m) { m = gen_ref(c.r, c.size(), c.size(), 0); return std::unique_ptr<X>(new X(dense_of(m))); }
    static void mutate(Ctx& c, X& x, M& m)
    {
        if (m.m == 0 || m.n == 0 || c.r.chance(1, 6)) { m = gen_ref(c.r, c.size(), c.size(), 0); x.SetSize(m.m, m.n); for (int i = 0; i < m.m; ++i) for (int j = 0; j < m.n; ++j) x(i, j) = m(i, j); return; }
        int i = c.r.range(0, m.m - 1), j = c.r.range(0, m.n - 1);
        if (c.r.chance(1, 2)) { x(i, j) = 55; m(i, j) = 55; }
        else { x.GetColView(j) = 4.0; for (int k = 0; k < m.m; ++k) m(k, j) = 4; }
    }
    static void check(Ctx& c, X& x, const M& m, const char* what)
    {
        CHECK(x.Rows() == m.m && x.Cols() == m.n, KEY, "%s: %dx%d, expected %dx%d", what, x.Rows(), x.Cols(), m.m, m.n);
        for (int i = 0; i < m.m; ++i) for (int j = 0; j < m.n; ++j) CHECK(x(i, j) == m(i, j), KEY, "%s: entry (%d,%d) is %g, expected %g", what, i, j, x(i, j), m(i, j));
        if (c.r.chance(1, 8)) { std::vector<double> v = gen_vec<double>(c.r, m.n, 0), w = matvec(m, v); same_list(x.Mult(static_cast<const VectorView<double>&>(Vector<double>(v))), w, what); }
    }
};
template <typename T> void sp_check(Ctx& c, const SparseMatrix<T>& x, const SpModel& m, const char* what)
{
    same_sp(wellformed(x, m.m, m.n, what), m, KEY, what);
    if (c.r.chance(1, 8)) { std::vector<double> v = gen_vec<double>(c.r, m.n, 0), w = matvec(m.dense(), v); Vector<double> y(m.m, 5.0); const Operator& op = x; op.Mult(Vector<double>(v), VectorView<double>(y.begin(), m.m)); same_list(y, w, what); }
}
template <typename T> struct SparseT
{
    typedef SparseMatrix<T> X; typedef SpModel M; static const bool assignable = true; static const char* name() { return "SparseMatrix"; }
    static std::unique_ptr<X> make(Ctx& c, M& m) { m = gen_sp(c, c.size(), c.size(), 0); return std::unique_ptr<X>(new X(build_csr<T>(c.r, m, true))); }
    static void mutate(Ctx& c, X& x, M& m)
    {
        switch (c.r.range(0, 3))
        {
            case 0: x *= (T)2; for (auto& p : m.e) p.second *= 2; break;
            case 1: x.SortIndices(); break;
            case 2: x = (T)3; for (auto& p : m.e) p.second = 3; break;
            default: if (m.m) { int i = c.r.range(0, m.m - 1); x.EliminateRow(i); for (auto& p : m.e) if (p.first.first == i) p.second = 0; } break;
        }
    }
    static void check(Ctx& c, X& x, const M& m, const char* what) { sp_check(c, x, m, what); }
};
template <typename Mat, typename T> struct TripletT
{
    struct M { SpModel s; bool sized; };
    typedef Mat X; static const bool assignable = true; static const char* name() { return "triplet matrix"; }
    static std::unique_ptr<X> make(Ctx& c, M& m)
    {
        m.sized = c.r.chance(1, 2); m.s = SpModel(m.sized ? c.size(1) : 0, m.sized ? c.size(1) : 0);
        std::unique_ptr<X> p(m.sized ? new X(m.s.m, m.s.n) : new X());
        for (int k = c.r.range(0, 12); k > 0; --k) mutate(c, *p, m);
        return p;
    }
    static void mutate(Ctx& c, X& x, M& m)
    {
        int i = c.r.range(0, m.sized ? m.s.m - 1 : 12), j = c.r.range(0, m.sized ? m.s.n - 1 : 12); double v = c.r.range(1, 9);
        x.Add(i, j, (T)v); m.s.e[std::make_pair(i, j)] += v;
        if (!m.sized) { m.s.m = std::max(m.s.m, i + 1); m.s.n = std::max(m.s.n, j + 1); }
    }
    static void check(Ctx& c, X& x, const M& m, const char* what)
    {
        CHECK(x.Rows() == m.s.m && x.Cols() == m.s.n, KEY, "%s: %dx%d, expected %dx%d", what, x.Rows(), x.Cols(), m.s.m, m.s.n);
        sp_check(c, x.ToSparse(), m.s, what);
    }
};
template <typename T> struct BlockMatT
{
    struct M { std::vector<int> ro, co; std::map<std::pair<int, int>, SpModel> b; };
    typedef BlockMatrix<T> X; static const bool assignable = true; static const char* name() { return "BlockMatrix"; }
    static std::unique_ptr<X> make(Ctx& c, M& m)
    {
        m.ro.assign(1, 0); m.co.assign(1, 0); m.b.clear();
        for (int k = c.r.range(0, 3); k > 0; --k) m.ro.push_back(m.ro.back() + c.r.range(0, 5));
        for (int k = c.r.range(0, 3); k > 0; --k) m.co.push_back(m.co.back() + c.r.range(0, 5));
        std::unique_ptr<X> p(new X(m.ro, m.co));
        for (int k = c.r.range(0, 6); k > 0; --k) mutate(c, *p, m);
        return p;
    }
    static void mutate(Ctx& c, X& x, M& m)
    {
        int rb = (int)m.ro.size() - 1, cb = (int)m.co.size() - 1; if (!rb || !cb) return;
        int i = c.r.range(0, rb - 1), j = c.r.range(0, cb - 1);
        SpModel B = gen_sp(c, m.ro[i + 1] - m.ro[i], m.co[j + 1] - m.co[j], 0);
        x.SetBlock(i, j, build_csr<T>(c.r, B, false)); m.b[std::make_pair(i, j)] = B;
    }
    static void check(Ctx& c, X& x, const M& m, const char* what)
    {
        CHECK(x.GetRowOffsets() == m.ro && x.GetColOffsets() == m.co, KEY, "%s: offsets differ", what);
        SpModel W(m.ro.back(), m.co.back());
        for (auto& b : m.b) for (auto& p : b.second.e) W.e[std::make_pair(m.ro[b.first.first] + p.first.first, m.co[b.first.second] + p.first.second)] = p.second;
        sp_check(c, x.Combine(), W, what);
    }
};
// operands that outlive every pool
struct Diag : public Operator
{
    double v; Diag(int n, double v_) : Operator(n), v(v_) {}
    void Mult(const VectorView<double>& in, VectorView<double> out) const override { for (int i = 0; i < rows_; ++i) out[i] = v * in[i]; }
    void MultAT(const VectorView<double>& in, VectorView<double> out) const override { Mult(in, out); }
    using Operator::Mult; using Operator::MultAT;
};
struct BlockOpT
{
    struct M { std::vector<int> o; std::vector<std::vector<const Diag*>> b; };
    typedef BlockOperator X; static const bool assignable = false; static const char* name() { return "BlockOperator"; }
    static const Diag* any(Rng& r) { static std::vector<std::unique_ptr<Diag>> d; if (d.empty()) for (int i = 1; i <= 4; ++i) d.emplace_back(new Diag(3, i)); return d[r.range(0, 3)].get(); }
    static std::unique_ptr<X> make(Ctx& c, M& m)
    {
        int nb = c.r.range(0, 3); m.o.assign(1, 0); for (int k = 0; k < nb; ++k) m.o.push_back(3 * (k + 1));
        m.b.assign(nb, std::vector<const Diag*>(nb, nullptr));
        std::unique_ptr<X> p(new X(m.o)); for (int k = c.r.range(0, 5); k > 0; --k) mutate(c, *p, m); return p;
    }
    static void mutate(Ctx& c, X& x, M& m) { int nb = (int)m.o.size() - 1; if (!nb) return; int i = c.r.range(0, nb - 1), j = c.r.range(0, nb - 1); const Diag* d = any(c.r); x.SetBlock(i, j, *d); m.b[i][j] = d; }
    static void check(Ctx& c, X& x, const M& m, const char* what)
    {
        int nb = (int)m.o.size() - 1, n = 3 * nb;
        CHECK(x.Rows() == n && x.Cols() == n && x.GetRowOffsets() == m.o && x.GetColOffsets() == m.o, KEY, "%s: %dx%d, expected %dx%d", what, x.Rows(), x.Cols(), n, n);
        for (int i = 0; i < nb; ++i) for (int j = 0; j < nb; ++j) CHECK(x.GetBlock(i, j) == m.b[i][j], KEY, "%s: block (%d,%d) differs", what, i, j);
        for (int tr = 0; tr < 2; ++tr)
        {
            std::vector<double> v = gen_vec<double>(c.r, n, 0), w(n, 0.0);
            for (int i = 0; i < nb; ++i) for (int j = 0; j < nb; ++j) if (m.b[i][j]) for (int k = 0; k < 3; ++k) { if (tr) w[3 * j + k] += m.b[i][j]->v * v[3 * i + k]; else w[3 * i + k] += m.b[i][j]->v * v[3 * j + k]; }
            Vector<double> V(v), y(n, std::numeric_limits<double>::quiet_NaN());
            if (tr) x.MultAT(V, VectorView<double>(y.begin(), n)); else x.Mult(V, VectorView<double>(y.begin(), n));
            same_list(y, w, what);
        }
    }
};
struct EigenT
{
    typedef EigenSolver X; typedef int M; static const bool assignable = true; static const char* name() { return "EigenSolver"; }
    static std::unique_ptr<X> make(Ctx&, M& m) { m = 0; return std::unique_ptr<X>(new X()); }
    static void mutate(Ctx& c, X& x, M&) { int n = c.r.range(1, 9); DenseMatrix A(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = 1.0 / (1 + i + j); EigenPair p = x.Solve(A, 1.0, n); (void)p; }
    static void check(Ctx& c, X& x, const M&, const char* what)
    {
        int n = c.r.range(1, 5); DenseMatrix A(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = i == j ? 2.0 : 0.5; // eigenvalues 1.5 and 2+(n-1)/2
        EigenPair p = x.Solve(A, 1.0, n);
        CHECK((int)p.first.size() == n && p.second.Rows() == n && p.second.Cols() == n, KEY, "%s: %zu pairs, expected %d", what, p.first.size(), n);
        for (int k = 0; k < n; ++k) CHECK(std::fabs(p.first[k] - (k + 1 < n ? 1.5 : 2.0 + 0.5 * (n - 1))) < 1e-10, KEY, "%s: eigenvalue %d is %.17g", what, k, p.first[k]);
    }
};
const Diag& diag_op(int k) { static Diag d0(4, 2.0), d1(4, 5.0), d2(4, 0.5); return k == 0 ? d0 : k == 1 ? d1 : d2; }
struct Spd4 : public Operator
{
    double s; explicit Spd4(double s_) : Operator(4), s(s_) {}
    void Mult(const VectorView<double>& in, VectorView<double> out) const override { for (int i = 0; i < 4; ++i) { double t = 0; for (int j = 0; j < 4; ++j) t += (i == j ? s + i : 1.0 / (1 + i + j)) * in[j]; out[i] = t; } }
    using Operator::Mult;
};
const Spd4& spd(int k) { static Spd4 a(4), b(6), d(9); return k == 0 ? a : k == 1 ? b : d; }
template <typename S> struct Mk;
template <> struct Mk<PCGSolver> { static PCGSolver* go(int a, int p, int it, double rel) { return p < 0 ? new PCGSolver(spd(a), it, rel, 0.0) : new PCGSolver(spd(a), diag_op(p), it, rel, 0.0); } };
template <> struct Mk<MINRESSolver> { static MINRESSolver* go(int a, int, int it, double rel) { return new MINRESSolver(spd(a), it, rel, 0.0); } };
template <> struct Mk<PMINRESSolver> { static PMINRESSolver* go(int a, int p, int it, double rel) { return new PMINRESSolver(spd(a), diag_op(p < 0 ? 0 : p), it, rel, 0.0); } };
template <typename S> struct KrylovT
{
    struct M { int a, p, it; double rel; };
    typedef S X; static const bool assignable = true; static const char* name() { return "Krylov solver"; }
    static std::unique_ptr<X> make(Ctx& c, M& m) { m.a = c.r.range(0, 2); m.p = c.r.range(-1, 2); m.it = c.r.range(1, 9); m.rel = std::pow(10.0, c.r.range(-9, -1)); return std::unique_ptr<X>(Mk<S>::go(m.a, m.p, m.it, m.rel)); }
    static void mutate(Ctx& c, X& x, M& m)
    {
        if (c.r.chance(1, 3)) { m.a = c.r.range(0, 2); x.SetOperator(spd(m.a)); }
        else if (c.r.chance(1, 2)) { m.it = c.r.range(1, 9); x.SetMaxIter(m.it); }
        else { m.rel = std::pow(10.0, c.r.range(-9, -1)); x.SetRelTol(m.rel); }
    }
    static void check(Ctx& c, X& x, const M& m, const char* what)
    {
        CHECK(x.Rows() == 4 && x.Cols() == 4 && x.GetOperator() == &spd(m.a), KEY, "%s: %dx%d solver with another operator", what, x.Rows(), x.Cols());
        std::unique_ptr<S> f(Mk<S>::go(m.a, m.p, m.it, m.rel));
        Vector<double> b(gen_vec<double>(c.r, 4, 0)), y(4, 0.0), z(4, 0.0);
        x.Mult(b, VectorView<double>(y.begin(), 4)); f->Mult(b, VectorView<double>(z.begin(), 4));
        CHECK(x.GetNumIterations() == f->GetNumIterations(), KEY, "%s: %d iterations, a new solver takes %d", what, x.GetNumIterations(), f->GetNumIterations());
        same_list(y, z, what);
    }
};
struct DirectT
{
    typedef SparseSolver X; typedef SpModel M; static const bool assignable = true; static const char* name() { return "SparseSolver"; }
    static std::unique_ptr<X> make(Ctx& c, M& m)
    {
        int n = c.r.range(1, 6); m = SpModel(n, n); for (int i = 0; i < n; ++i) { m.e[std::make_pair(i, i)] = c.r.range(4, 9); if (i) m.e[std::make_pair(i, c.r.range(0, i - 1))] = c.r.range(-2, 2); }
        return std::unique_ptr<X>(new X(build_csr<double>(c.r, m, true)));
    }
    static void mutate(Ctx& c, X& x, M& m) { std::unique_ptr<X> y = make(c, m); x = *y; }
    static void check(Ctx& c, X& x, const M& m, const char* what)
    {
        CHECK(x.Rows() == m.m && x.Cols() == m.n, KEY, "%s: %dx%d, expected %dx%d", what, x.Rows(), x.Cols(), m.m, m.n);
        std::vector<double> v = gen_vec<double>(c.r, m.n, 0), b = matvec(m.dense(), v);
        Vector<double> B(b), y(m.m, 7.0); x.Mult(B, VectorView<double>(y.begin(), m.m));
        for (int i = 0; i < m.m; ++i) CHECK(std::fabs(y[i] - v[i]) < 1e-10, KEY, "%s: solution entry %d is %.17g, expected %g", what, i, y[i], v[i]);
    }
};
struct TimerT
{
    typedef Timer X; typedef std::vector<double> M; static const bool assignable = true; static const char* name() { return "Timer"; }
    static std::unique_ptr<X> make(Ctx& c, M& m) { std::unique_ptr<X> t(new X()); for (int k = c.r.range(0, 4); k > 0; --k) { t->Click(); m.push_back(0); } for (size_t k = 1; k < m.size(); ++k) m[k] = (*t)[(int)k - 1]; return t; }
    static void mutate(Ctx&, X& x, M& m) { x.Click(); m.push_back(m.empty() ? 0 : x[(int)m.size() - 1]); }
    static void check(Ctx&, X& x, const M& m, const char* what)
    {
        double tot = 0; for (size_t k = 1; k < m.size(); ++k) { CHECK(x[(int)k - 1] == m[k], KEY, "%s: lap %zu changed", what, k - 1); tot += m[k]; }
        CHECK(std::fabs(x.TotalTime() - tot) < 1e-7, KEY, "%s: total %g, expected %g", what, x.TotalTime(), tot);
    }
};

template <typename Tr, bool A> struct Assign
{
    typedef typename Tr::X X;
    static void copy(X& a, X& b) { a = b; }
    static void move(X& a, X& b) { a = std::move(b); }
    static void grow(Ctx& c, X& a, const typename Tr::M& m)
    {
        STEP("container of copies");
        std::vector<X> v; int n = c.r.range(1, 6);
        for (int i = 0; i < n; ++i) v.push_back(a);           // reallocation copies or moves
        if (n > 1 && c.r.chance(1, 2)) { v.erase(v.begin()); --n; }
        std::rotate(v.begin(), v.begin() + n / 2, v.end());
        for (int i = 0; i < n; ++i) Tr::check(c, v[i], m, "element of a container");
    }
};
template <typename Tr> struct Assign<Tr, false>
{
    typedef typename Tr::X X;
    static void copy(X&, X&) {} static void move(X&, X&) {}
    static void grow(Ctx&, X&, const typename Tr::M&) {}
};

template <typename Tr>
void pool(Ctx& c)
{
    typedef typename Tr::X X; typedef typename Tr::M M;
    typedef Assign<Tr, Tr::assignable> As;
    struct Slot { std::unique_ptr<X> x; M m; bool known; };
    Rng& r = c.r;
    std::vector<Slot> P;
    char hist[200]; int hl = 0; hist[0] = 0;
    int steps = r.range(3, 14);
    auto add = [&](std::unique_ptr<X> x, const M& m, bool known) { Slot s; s.x = std::move(x); s.m = m; s.known = known; P.push_back(std::move(s)); };
    { M m = M(); std::unique_ptr<X> x = Tr::make(c, m); add(std::move(x), m, true); }
    for (int q = 0; q < steps; ++q)
    {
        int op = r.range(0, 10), n = (int)P.size(), a = r.range(0, n - 1), b = r.range(0, n - 1);
        if (!Tr::assignable && (op == 3 || op == 4 || op == 6)) op = 7;
        if (hl < 180) hl += std::snprintf(hist + hl, sizeof hist - hl, " %d(%d,%d)", op, a, b);
        c.describe("%s history:%s", Tr::name(), hist);
        c.mix(op); c.mix(a * 16 + b);
        switch (op)
        {
            case 0: { STEP("construct"); M m = M(); std::unique_ptr<X> x = Tr::make(c, m); add(std::move(x), m, true); break; }
            case 1: { STEP("copy construct"); std::unique_ptr<X> x(new X(*P[a].x)); M m = P[a].m; bool k = P[a].known; add(std::move(x), m, k); break; }
            case 2: { STEP("move construct"); std::unique_ptr<X> x(new X(std::move(*P[a].x))); M m = P[a].m; bool k = P[a].known; P[a].known = false; add(std::move(x), m, k); break; }
            case 3: STEP("copy assign"); As::copy(*P[a].x, *P[b].x); P[a].m = P[b].m; P[a].known = P[b].known; if (a == b) count("self assignment"); break;
            case 4: STEP("move assign"); if (a == b) break; As::move(*P[a].x, *P[b].x); P[a].m = P[b].m; P[a].known = P[b].known; P[b].known = false; break;
            case 5: STEP("swap"); { using std::swap; swap(*P[a].x, *P[b].x); } std::swap(P[a].m, P[b].m); std::swap(P[a].known, P[b].known); if (a == b) count("self swap"); break;
            case 6: if (P[a].known) As::grow(c, *P[a].x, P[a].m); break;
            case 7: case 8: STEP("change"); if (P[a].known) Tr::mutate(c, *P[a].x, P[a].m); break;
            case 9: STEP("destroy"); if (n > 1) P.erase(P.begin() + a); break;
            default: STEP("reassign a moved-from object"); for (auto& s : P) if (!s.known && Tr::assignable) { M m = M(); std::unique_ptr<X> y = Tr::make(c, m); As::copy(*s.x, *y); s.m = m; s.known = true; } break;
        }
        STEP("after the step");
        for (auto& s : P) if (s.known) { Tr::check(c, *s.x, s.m, Tr::name()); count("objects compared with their own model"); }
    }
    c.nontrivial = P.size() > 1;
}
#define POOL(id, name, ...) FAMILY(id, name) { pool<__VA_ARGS__>(c); }
POOL(vd, "value.vector.double", VecT<double>)
POOL(vi, "value.vector.int", VecT<int>)
POOL(bvd, "value.blockvector", BlockVecT<double>)
POOL(bvi, "value.blockvector.int", BlockVecT<int>)
POOL(de, "value.dense", DenseT)
POOL(sd, "value.sparse.double", SparseT<double>)
POOL(si, "value.sparse.int", SparseT<int>)
POOL(cd, "value.coo.double", TripletT<CooMatrix<double>, double>)
POOL(ci, "value.coo.int", TripletT<CooMatrix<int>, int>)
POOL(ld, "value.lil.double", TripletT<LilMatrix<double>, double>)
POOL(li, "value.lil.int", TripletT<LilMatrix<int>, int>)
POOL(bm, "value.blockmatrix", BlockMatT<double>)
POOL(bmi, "value.blockmatrix.int", BlockMatT<int>)
POOL(bo, "value.blockoperator", BlockOpT)
POOL(ei, "value.eigensolver", EigenT)
POOL(pc, "value.pcg", KrylovT<PCGSolver>)
POOL(mi, "value.minres", KrylovT<MINRESSolver>)
POOL(pm, "value.pminres", KrylovT<PMINRESSolver>)
POOL(ds, "value.direct", DirectT)
POOL(ti, "value.timer", TimerT)

// views assign by value; vectors from views are independent; self assignment in every form
template <typename T>
void views(Ctx& c)
{
    Rng& r = c.r; int n = c.size(1);
    std::vector<T> m = gen_vec<T>(r, n, 0); Vector<T> v(m);
    int a = r.range(0, n), k = r.range(0, n - a);
    c.mix(n); c.mix(a); c.mix(k); c.nontrivial = k > 1; c.describe("length %d, view [%d,%d)", n, a, a + k);
    STEP("vector from view"); VectorView<T> w(v.begin() + a, k); Vector<T> copy(w);
    std::vector<T> mc(m.begin() + a, m.begin() + a + k);
    if (k) { copy[0] = (T)77; mc[0] = (T)77; }
    same_list(copy, mc, "vector from view"); same_list(v, m, "owner");
    STEP("vector = view of another"); Vector<T> u(r.range(0, 9), (T)4); u = w; std::vector<T> mu(m.begin() + a, m.begin() + a + k); same_list(u, mu, "vector assigned from view");
    if (k) { w[0] = (T)55; m[a] = (T)55; } same_list(u, mu, "vector assigned from view after the owner changed"); same_list(v, m, "owner");
    STEP("vector = its own whole view"); { VectorView<T> all(v.begin(), n); v = all; same_list(v, m, "vector assigned from a view of itself"); }
    STEP("vector = itself"); { Vector<T>& alias = v; v = alias; same_list(v, m, "self assignment"); }
    STEP("view = itself"); { w = w; same_list(v, m, "view self assignment"); }
    STEP("view copy is a second view"); { VectorView<T> w2(w); if (k) { w2[k - 1] = (T)13; m[a + k - 1] = (T)13; } same_list(v, m, "owner after writing through a copied view"); }
    STEP("arrays handed out"); { std::vector<T> d = v.data(); if (n) { d[0] = (T)99; } same_list(v, m, "owner after changing a copy of its data"); }
    STEP("brace and value construction"); { Vector<T> z(n, (T)6); same_list(z, std::vector<T>(n, (T)6), "filled vector"); Vector<T> p(m.data(), n); if (n) m[0] = m[0]; same_list(p, m, "vector from pointer"); }
}
FAMILY(vw_d, "value.views.double") { views<double>(c); }
FAMILY(vw_i, "value.views.int") { views<int>(c); }
} // namespace
