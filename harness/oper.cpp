// Operators of every kind through the common interface (C28): one fixed linear map, whichever call form.
#include "sp.hpp"
#include "sparsesolve.hpp"
using namespace linalgcpp;
using namespace vh;

namespace
{
typedef std::vector<double> Dv;
typedef void (Operator::*MultVec)(const VectorView<double>&, Vector<double>&) const;
// what a user writes: the forward action alone
struct Forward : public Operator
{
    Ref A;
    Forward() {}
    explicit Forward(const Ref& R) : Operator(R.m, R.n), A(R) {}
    void Mult(const VectorView<double>& in, VectorView<double> out) const override
    {
        CHECK(in.size() == A.n && out.size() == A.m, "oper-size", "a %dx%d operator is applied to %d entries and asked for %d", A.m, A.n, in.size(), out.size());
        count("monitor: user operator applied");
        for (int i = 0; i < A.m; ++i) { long double s = 0; for (int j = 0; j < A.n; ++j) s += (long double)A(i, j) * in[j]; out[i] = (double)s; }
    }
    using Operator::Mult;
};
struct Square : public Forward
{
    explicit Square(const Ref& R) : Forward(R) { static_cast<Operator&>(*this) = Own(R.m); }
    struct Own : public Operator { explicit Own(int n) : Operator(n) {} void Mult(const VectorView<double>&, VectorView<double>) const override {} };
};
// forward and transposed action
struct Both : public Forward
{
    explicit Both(const Ref& R) : Forward(R) {}
    void MultAT(const VectorView<double>& in, VectorView<double> out) const override
    {
        CHECK(in.size() == A.m && out.size() == A.n, "oper-size", "the transpose of a %dx%d operator is applied to %d entries and asked for %d", A.m, A.n, in.size(), out.size());
        count("monitor: user operator applied transposed");
        for (int j = 0; j < A.n; ++j) { long double s = 0; for (int i = 0; i < A.m; ++i) s += (long double)A(i, j) * in[i]; out[j] = (double)s; }
    }
    using Operator::MultAT;
};

struct Thing
{
    Ref R;
    bool at = true, inverse = false; // inverse: result only accurate to a residual
    std::unique_ptr<Operator> op;
    std::vector<std::unique_ptr<Thing>> parts; // blocks are referenced, not owned
    const char* kind = "";
};
SpModel model_of(const Ref& R) { SpModel M(R.m, R.n); for (int i = 0; i < R.m; ++i) for (int j = 0; j < R.n; ++j) if (R(i, j) != 0) M.e[std::make_pair(i, j)] = R(i, j); return M; }
std::vector<int> offs(Rng& r, int n) { std::vector<int> o(1, 0); int k = r.range(0, 2); for (int i = 0; i < k; ++i) o.push_back(r.range(0, n)); o.push_back(n); std::sort(o.begin(), o.end()); return o; }
Ref part(const Ref& R, int i0, int i1, int j0, int j1) { Ref S(i1 - i0, j1 - j0); for (int i = i0; i < i1; ++i) for (int j = j0; j < j1; ++j) S(i - i0, j - j0) = R(i, j); return S; }
Ref rnd(Rng& r, int m, int n, bool ints) { Ref R(m, n); int d = r.range(1, 3); for (double& v : R.a) if (r.range(0, 3) < d) v = ints ? r.range(-6, 6) : gen_val(r, 2); return R; }

std::unique_ptr<Thing> make(Rng& r, int m, int n, int depth)
{
    std::unique_ptr<Thing> t(new Thing);
    int k = r.range(0, depth > 0 ? 10 : 8);
    const bool ints = k == 3 || k == 5 || k == 7;
    t->R = rnd(r, m, n, ints || r.chance(1, 3));
    SpModel M = model_of(t->R);
    switch (k)
    {
        case 0: t->kind = "user, forward only"; t->at = false; if (m == n && r.chance(1, 2)) t->op.reset(new Square(t->R)); else t->op.reset(new Forward(t->R)); break;
        case 1: t->kind = "user, both actions"; t->op.reset(new Both(t->R)); break;
        case 2: t->kind = "sparse"; t->op.reset(new SparseMatrix<double>(build_csr<double>(r, M, true))); break;
        case 3: t->kind = "sparse int"; t->op.reset(new SparseMatrix<int>(build_csr<int>(r, M, true))); break;
        case 4: { t->kind = "coo"; CooMatrix<double>* p = new CooMatrix<double>(m, n); t->op.reset(p); for (auto& e : M.e) { double h = r.chance(1, 3) ? 0.5 : 1; p->Add(e.first.first, e.first.second, h * e.second); if (h != 1) p->Add(e.first.first, e.first.second, e.second - h * e.second); } break; }
        case 5: { t->kind = "coo int"; CooMatrix<int>* p = new CooMatrix<int>(m, n); t->op.reset(p); for (auto& e : M.e) p->Add(e.first.first, e.first.second, (int)e.second); break; }
        case 6: { t->kind = "lil"; LilMatrix<double>* p = new LilMatrix<double>(m, n); t->op.reset(p); for (auto& e : M.e) p->Add(e.first.first, e.first.second, e.second); break; }
        case 7: { t->kind = "lil int"; LilMatrix<int>* p = new LilMatrix<int>(m, n); t->op.reset(p); for (auto& e : M.e) p->Add(e.first.first, e.first.second, (int)e.second); break; }
        case 8: { t->kind = "dense"; t->op.reset(new DenseMatrix(dense_of(t->R))); break; }
        case 9:
        {
            t->kind = "block matrix";
            std::vector<int> ro = offs(r, m), co = offs(r, n);
            BlockMatrix<double>* p = new BlockMatrix<double>(ro, co); t->op.reset(p);
            for (size_t i = 0; i + 1 < ro.size(); ++i) for (size_t j = 0; j + 1 < co.size(); ++j)
            {
                if (r.chance(1, 4)) { for (int a = ro[i]; a < ro[i + 1]; ++a) for (int b = co[j]; b < co[j + 1]; ++b) t->R(a, b) = 0; continue; }
                p->SetBlock(i, j, build_csr<double>(r, model_of(part(t->R, ro[i], ro[i + 1], co[j], co[j + 1])), true));
            }
            break;
        }
        default:
        {
            t->kind = "block operator";
            std::vector<int> ro = offs(r, m), co = offs(r, n);
            BlockOperator* p = new BlockOperator(ro, co); t->op.reset(p);
            for (size_t i = 0; i + 1 < ro.size(); ++i) for (size_t j = 0; j + 1 < co.size(); ++j)
            {
                const bool skip = r.chance(1, 4);
                Ref Z(ro[i + 1] - ro[i], co[j + 1] - co[j]);
                if (!skip)
                {
                    t->parts.push_back(make(r, Z.m, Z.n, depth - 1));
                    Z = t->parts.back()->R; if (!t->parts.back()->at) t->at = false;
                    p->SetBlock(i, j, *t->parts.back()->op);
                }
                for (int a = 0; a < Z.m; ++a) for (int b = 0; b < Z.n; ++b) t->R(ro[i] + a, co[j] + b) = Z(a, b);
            }
        }
    }
    return t;
}
void expect(const Thing& t, const VectorView<double>& got, const Dv& want, const Dv& mag, const char* what)
{
    CHECK(got.size() == (int)want.size(), "oper-form", "%s, %s: %d entries, expected %zu", t.kind, what, got.size(), want.size());
    for (size_t i = 0; i < want.size(); ++i) CHECK(near(got[i], want[i], mag[i], t.R.m + t.R.n), "oper-form", "%s %dx%d, %s: entry %zu is %.17g, expected %.17g", t.kind, t.R.m, t.R.n, what, i, got[i], want[i]);
}

FAMILY(forms, "operator.forms")
{
    Rng& r = c.r;
    int m = c.size(), n = r.chance(1, 3) ? m : c.size();
    if (m > 60) m = 60; if (n > 60) n = 60;
    std::unique_ptr<Thing> t = make(r, m, n, 2);
    const Operator& A = *t->op;
    c.nontrivial = m > 0 && n > 0 && m + n > 2; c.mix(hash_str(t->kind)); c.mix(m); c.mix(n); c.mix(t->parts.size()); for (size_t i = 0; i < std::min<size_t>(t->R.a.size(), 6); ++i) c.mixd(t->R.a[i]);
    c.describe("%s %dx%d, %zu parts", t->kind, m, n, t->parts.size());
    count("operators exercised through the interface");
    CHECK(A.Rows() == m && A.Cols() == n, "oper-size", "%s: %dx%d, expected %dx%d", t->kind, A.Rows(), A.Cols(), m, n);
    const Ref RT = transpose(t->R);
    Dv first; Vector<double> reuse(r.range(0, 70), 3.5), reuse_t(r.range(0, 70), std::numeric_limits<double>::quiet_NaN());
    for (int round = 0; round < r.range(1, 4); ++round)
    {
        const bool tr = r.chance(1, 3);
        const int in_n = tr ? m : n, out_n = tr ? n : m;
        Dv xv = gen_vec<double>(r, in_n, r.range(0, 2)), mag;
        Dv want = matvec(tr ? RT : t->R, xv, &mag);
        Vector<double> x(xv);
        if (tr && !t->at)
        {
            STEP("MultAT that is not defined");
            // either an exception, or (no block that lacks it was reached) nothing to say
            bool all = t->parts.empty(), threw = false;
            Vector<double> y(out_n, 2.0);
            try { A.MultAT(x, VectorView<double>(y.begin(), out_n)); } catch (const std::runtime_error&) { threw = true; count("transposed action that is not defined raised"); }
            if (all) CHECK(threw, "oper-undefined", "%s: the transposed action is not defined, but nothing was raised", t->kind);
            if (all)
            {
                threw = false; try { Vector<double> z = A.MultAT(x); } catch (const std::runtime_error&) { threw = true; }
                CHECK(threw, "oper-undefined", "%s: the transposed action by value is not defined, but nothing was raised", t->kind);
                threw = false; Vector<double> q; try { A.MultAT(x, q); } catch (const std::runtime_error&) { threw = true; }
                CHECK(threw, "oper-undefined", "%s: the transposed action with an output vector is not defined, but nothing was raised", t->kind);
            }
            for (int i = 0; i < in_n; ++i) CHECK(x[i] == xv[i], "operand-changed", "input entry %d", i);
            continue;
        }
        const int form = r.range(0, 3); c.mix(form + 10 * tr);
        if (form == 0)
        {
            STEP(tr ? "MultAT into a view" : "Mult into a view");
            Vector<double> big(out_n + 6, -77.0);
            if (r.chance(1, 2)) for (int i = 0; i < out_n; ++i) big[3 + i] = std::numeric_limits<double>::quiet_NaN();
            VectorView<double> out(big.begin() + 3, out_n);
            if (tr) A.MultAT(x, out); else A.Mult(x, out);
            expect(*t, out, want, mag, "into a view");
            for (int i = 0; i < 3; ++i) CHECK(big[i] == -77.0 && big[out_n + 3 + i] == -77.0, "oper-outside", "%s: entries around the output view changed", t->kind);
        }
        else if (form == 1)
        {
            STEP(tr ? "MultAT into a vector" : "Mult into a vector");
            Vector<double>& out = tr ? reuse_t : reuse;
            if (tr) A.MultAT(x, out); else A.Mult(x, out);
            expect(*t, out, want, mag, "into a vector of another size");
        }
        else if (form == 2)
        {
            STEP(tr ? "MultAT by value" : "Mult by value");
            Vector<double> out = tr ? A.MultAT(x) : A.Mult(x);
            expect(*t, out, want, mag, "by value");
            // the input through a view of a longer vector, and again: the same bits
            Vector<double> longer(in_n + 4, 1e30); for (int i = 0; i < in_n; ++i) longer[2 + i] = xv[i];
            VectorView<double> xin(longer.begin() + 2, in_n);
            Vector<double> again = tr ? A.MultAT(xin) : A.Mult(xin);
            for (int i = 0; i < out_n; ++i) CHECK(near(out[i], again[i], mag[i], in_n), "oper-repeat", "%s: entry %d is %.17g, the same input through a view gives %.17g", t->kind, i, out[i], again[i]);
        }
        else
        {
            STEP("InnerProduct");
            Dv yv = gen_vec<double>(r, m, 1), mg; Dv xn = gen_vec<double>(r, n, 1), ax = matvec(t->R, xn, &mg);
            long double s = 0, sa = 0; for (int i = 0; i < m; ++i) { s += (long double)yv[i] * ax[i]; sa += std::fabs(yv[i]) * mg[i]; }
            Vector<double> X(xn), Y(yv);
            double got = A.InnerProduct(X, Y);
            CHECK(near(got, (double)s, (double)sa, m + n), "oper-inner", "%s: y^T A x is %.17g, expected %.17g", t->kind, got, (double)s);
            for (int i = 0; i < n; ++i) CHECK(X[i] == xn[i], "operand-changed", "x entry %d", i);
            for (int i = 0; i < m; ++i) CHECK(Y[i] == yv[i], "operand-changed", "y entry %d", i);
            if (t->at)
            {
                STEP("adjoint");
                double other = X.Mult(A.MultAT(Y));
                CHECK(near(other, (double)s, (double)sa, m + n), "oper-inner", "%s: x^T (A^T y) is %.17g, expected %.17g", t->kind, other, (double)s);
            }
        }
        for (int i = 0; i < in_n; ++i) CHECK(x[i] == xv[i], "operand-changed", "%s: input entry %d", t->kind, i);
        // the parts of a blocked operator are still what they were
        for (auto& p : t->parts) CHECK(p->op->Rows() == p->R.m && p->op->Cols() == p->R.n, "oper-size", "a block changed its size");
    }
}

FAMILY(sizes, "operator.sizes")
{
    Rng& r = c.r;
    struct Own { Ref R; std::unique_ptr<Forward> f; };
    std::vector<Forward> pool; std::vector<std::pair<int, int>> want;
    int k = r.range(2, 5);
    c.nontrivial = true; c.describe("%d operators:", k);
    for (int i = 0; i < k; ++i) { int m = r.range(0, 6), n = r.range(0, 6); pool.push_back(Forward(rnd(r, m, n, false))); want.push_back(std::make_pair(m, n)); }
    auto check = [&](const char* what) {
        for (int i = 0; i < k; ++i) CHECK(static_cast<Operator&>(pool[i]).Rows() == want[i].first && pool[i].Cols() == want[i].second, "oper-size", "%s: operator %d is %dx%d, expected %dx%d", what, i, pool[i].Rows(), pool[i].Cols(), want[i].first, want[i].second);
        count("operator sizes compared");
    };
    check("built");
    for (int s = 0; s < 12; ++s)
    {
        int a = r.range(0, k - 1), b = r.range(0, k - 1), act = r.range(0, 3); c.mix(act * 100 + a * 10 + b); c.describe(" %d:%d,%d", act, a, b);
        Operator& A = pool[a]; Operator& B = pool[b];
        if (act == 0) { STEP("swap of the bases"); swap(A, B); std::swap(want[a], want[b]); std::swap(pool[a].A, pool[b].A); check("swap"); }
        else if (act == 1)
        {
            STEP("copy"); Forward t(pool[a]);
            CHECK(t.Rows() == want[a].first && t.Cols() == want[a].second, "oper-size", "a copy is %dx%d, expected %dx%d", t.Rows(), t.Cols(), want[a].first, want[a].second);
            check("copy");
            if (t.Cols() > 0) { Vector<double> x(t.Cols(), 1.0); Vector<double> y = t.Mult(x), z = pool[a].Mult(x); CHECK(y == z, "oper-form", "a copied operator acts differently"); }
        }
        else if (act == 2)
        {
            STEP("move"); if (a == b) continue;
            Forward t(std::move(pool[a]));
            CHECK(t.Rows() == want[a].first && t.Cols() == want[a].second, "oper-size", "a moved-to operator is %dx%d, expected %dx%d", t.Rows(), t.Cols(), want[a].first, want[a].second);
            pool[b] = std::move(t); want[b] = want[a];
            pool[a] = Forward(rnd(r, want[a].first, want[a].second, false)); check("move");
        }
        else { STEP("default"); Forward t; CHECK(t.Rows() == 0 && t.Cols() == 0, "oper-size", "a default operator is %dx%d", t.Rows(), t.Cols()); int q = r.range(0, 9); Square::Own o(q); CHECK(o.Rows() == q && o.Cols() == q, "oper-size", "Operator(%d) is %dx%d", q, o.Rows(), o.Cols()); }
    }
    STEP("SumRows/SumCols");
    long rs = 0, cs = 0; for (auto& w : want) { rs += w.first; cs += w.second; }
    CHECK(SumRows(pool) == rs && SumCols(pool) == cs, "oper-size", "SumRows %d SumCols %d, expected %ld %ld", SumRows(pool), SumCols(pool), rs, cs);
}

// an operator that fails part way: the exception arrives, and whatever used it still works
struct Failing : public Both
{
    mutable long left;
    Failing(const Ref& R, long n) : Both(R), left(n) {}
    void tick() const { if (left-- == 0) { count("operators that raised"); throw std::logic_error("injected"); } }
    void Mult(const VectorView<double>& in, VectorView<double> out) const override { tick(); Both::Mult(in, out); }
    void MultAT(const VectorView<double>& in, VectorView<double> out) const override { tick(); Both::MultAT(in, out); }
    using Operator::Mult;
    using Operator::MultAT;
};
FAMILY(failing, "operator.failing")
{
    Rng& r = c.r;
    int n = r.range(1, 12);
    Ref S(n, n); for (int i = 0; i < n; ++i) { S(i, i) = 4 + r.unit(); if (i) S(i, i - 1) = S(i - 1, i) = r.uniform(-1, 1); }
    Failing F(S, r.range(0, 6));
    int what = r.range(0, 4); c.mix(what); c.mix(n); c.mix(F.left); c.nontrivial = true; c.describe("n=%d what=%d after %ld", n, what, F.left);
    Dv xv = gen_vec<double>(r, n, 1), mag; Vector<double> x(xv);
    Ref I(n, n); for (int i = 0; i < n; ++i) I(i, i) = 1;
    Both id(I);
    std::unique_ptr<Operator> user; Ref R = S; bool inv = false;
    if (what == 0)
    {
        BlockOperator* p = new BlockOperator({0, n, 2 * n}, {0, n, 2 * n}); user.reset(p); p->SetBlock(0, 0, id); p->SetBlock(0, 1, F); p->SetBlock(1, 0, F); p->SetBlock(1, 1, id);
        R = Ref(2 * n, 2 * n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { R(i, j) = R(n + i, n + j) = I(i, j); R(i, n + j) = R(n + i, j) = S(i, j); }
        xv = gen_vec<double>(r, 2 * n, 1); x = Vector<double>(xv);
    }
    else if (what == 1) { inv = true; user.reset(new PCGSolver(F, 400, 1e-12, 1e-12)); }
    else if (what == 2) { inv = true; user.reset(new PCGSolver(id, F, 400, 1e-12, 1e-12)); R = I; }
    else if (what == 3) { inv = true; user.reset(new MINRESSolver(F, 400, 1e-12, 1e-12)); }
    else { inv = true; user.reset(new PMINRESSolver(F, id, 400, 1e-12, 1e-12)); }
    for (int round = 0; round < 3; ++round)
    {
        STEP("use of an operator that may raise");
        Vector<double> y(R.m, 0.0);
        const long before = F.left; bool threw = false;
        try { user->Mult(x, VectorView<double>(y.begin(), R.m)); } catch (const std::logic_error& e) { threw = true; CHECK(std::string(e.what()) == "injected", "oper-exception", "the exception became '%s'", e.what()); }
        CHECK(threw == (before >= 0 && F.left < 0), "oper-exception", "the operator raised, but its caller did not pass it on");
        if (!threw)
        {
            if (!inv) { Dv w = matvec(R, xv, &mag); for (int i = 0; i < R.m; ++i) CHECK(near(y[i], w[i], mag[i], R.m), "oper-exception", "entry %d is %.17g, expected %.17g", i, y[i], w[i]); }
            else { Dv yy(y.begin(), y.end()), w = matvec(R, yy); for (int i = 0; i < n; ++i) CHECK(std::fabs(w[i] - xv[i]) <= 1e-8 * 400, "oper-exception", "residual %.3g in row %d after an earlier failure", w[i] - xv[i], i); }
        }
        for (size_t i = 0; i < xv.size(); ++i) CHECK(x[i] == xv[i], "operand-changed", "input entry %zu", i);
    }
}
} // namespace
