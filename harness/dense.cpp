// Dense matrices: products and arithmetic (C09), blocks and resizing (C10), factorisations (C11), eigenpairs (C12).
#include "sp.hpp"
using namespace linalgcpp;
using namespace vh;

namespace
{
const char* KP = "dense-product";
const char* KA = "dense-arith";
const char* KB = "dense-block";

void unchanged(const DenseMatrix& A, const Ref& R, const char* what)
{
    CHECK(A.Rows() == R.m && A.Cols() == R.n, "dense-operand", "%s: operand shape became %dx%d", what, A.Rows(), A.Cols());
    for (int i = 0; i < R.m; ++i) for (int j = 0; j < R.n; ++j)
        CHECK(A(i, j) == R(i, j), "dense-operand", "%s: operand entry (%d,%d) changed from %.17g to %.17g", what, i, j, R(i, j), A(i, j));
}
void sigref(Ctx& c, const Ref& R) { c.mix(R.m); c.mix(R.n); for (size_t k = 0; k < R.a.size() && k < 6; ++k) c.mixd(R.a[k]); }

// ------------------------------------------------------------ products (C09)
FAMILY(dprod, "dense.products")
{
    Rng& r = c.r;
    const int mode = r.range(0, 3);
    int m = c.size(), k = r.chance(1, 4) ? m : c.size(), n = r.chance(1, 4) ? m : c.size();
    bool AT = r.chance(1, 2), BT = r.chance(1, 2);
    Ref RA = AT ? gen_ref(r, k, m, mode) : gen_ref(r, m, k, mode);
    Ref RB = BT ? gen_ref(r, n, k, mode) : gen_ref(r, k, n, mode);
    DenseMatrix A = dense_of(RA), B = dense_of(RB);
    sigref(c, RA); sigref(c, RB); c.mix(AT * 2 + BT);
    c.nontrivial = m > 0 && n > 0 && k > 0;
    c.describe("C=%s(A %dx%d)*%s(B %dx%d) mode=%d", AT ? "T" : "N", RA.m, RA.n, BT ? "T" : "N", RB.m, RB.n, mode);
    Ref G, W = multiply(AT ? transpose(RA) : RA, BT ? transpose(RB) : RB, &G);
    {
        STEP(AT ? (BT ? "MultABT" : "MultAT") : (BT ? "MultBT" : "Mult"));
        DenseMatrix C = AT ? (BT ? A.MultABT(B) : A.MultAT(B)) : (BT ? A.MultBT(B) : A.Mult(B));
        same_values(ref_of(C), W, &G, k, KP, "product by value");
        DenseMatrix D = stale(r, m, n);
        STEP(AT ? (BT ? "MultABT(out)" : "MultAT(out)") : (BT ? "MultBT(out)" : "Mult(out)"));
        if (AT) { if (BT) A.MultABT(B, D); else A.MultAT(B, D); } else { if (BT) A.MultBT(B, D); else A.Mult(B, D); }
        same_values(ref_of(D), W, &G, k, KP, "product into an argument");
        if (r.chance(1, 4) && RA.m == RB.m && RA.n == RB.n)
        {
            STEP("product with itself");
            DenseMatrix S = AT ? (BT ? DenseMatrix() : A.MultAT(A)) : (BT ? A.MultBT(A) : DenseMatrix());
            if (AT != BT)
            {
                Ref G2, W2 = multiply(AT ? transpose(RA) : RA, BT ? transpose(RA) : RA, &G2);
                same_values(ref_of(S), W2, &G2, k, KP, "product with itself");
            }
        }
        if (m == k && k == n && !AT && !BT)
        {
            DenseMatrix S = A.Mult(A);
            Ref G2, W2 = multiply(RA, RA, &G2);
            same_values(ref_of(S), W2, &G2, k, KP, "square");
        }
    }
    unchanged(A, RA, "product"); unchanged(B, RB, "product");
    // vectors
    for (int tr = 0; tr < 2; ++tr)
    {
        std::vector<double> x = gen_vec<double>(r, tr ? RA.m : RA.n, mode), g;
        std::vector<double> w = matvec(tr ? transpose(RA) : RA, x, &g);
        int len = tr ? RA.n : RA.m, in = tr ? RA.m : RA.n;
        Vector<double> X(x);
        const Operator& op = A;
        auto cmp = [&](const VectorView<double>& y, const char* what)
        {
            CHECK(y.size() == len, KP, "%s: size %d, expected %d", what, y.size(), len);
            for (int i = 0; i < len; ++i) CHECK(near(y[i], w[i], g[i], in), KP, "%s: entry %d is %.17g, expected %.17g", what, i, y[i], w[i]);
        };
        STEP(tr ? "MultAT(x)" : "Mult(x)");
        cmp(tr ? A.MultAT(X) : A.Mult(X), "vector product by value");
        cmp(tr ? op.MultAT(X) : op.Mult(X), "vector product by value, operator interface");
        Vector<double> y = stale_vec<double>(r, len, true);
        STEP(tr ? "MultAT(x,y)" : "Mult(x,y)");
        if (tr) A.MultAT(X, y); else A.Mult(X, y);
        cmp(y, "vector product into a vector");
        std::vector<double> buf(len + 2, 11.5);
        for (int i = 0; i < len; ++i) buf[i + 1] = std::numeric_limits<double>::quiet_NaN();
        VectorView<double> v(buf.data() + 1, len);
        STEP(tr ? "MultAT(x,view)" : "Mult(x,view)");
        if (r.chance(1, 2)) { if (tr) A.MultAT(X, v); else A.Mult(X, v); }
        else { if (tr) op.MultAT(X, v); else op.Mult(X, v); }
        cmp(v, "vector product into a view");
        CHECK(buf.front() == 11.5 && buf.back() == 11.5, KP, "vector product wrote outside its output");
        for (int i = 0; i < in; ++i) CHECK(X[i] == x[i], "dense-operand", "input vector entry %d changed", i);
        if (mode == 0)
        {
            std::vector<int> xi(in); for (int i = 0; i < in; ++i) xi[i] = (int)x[i];
            Vector<int> XI(xi);
            STEP(tr ? "MultAT(int x)" : "Mult(int x)");
            cmp(tr ? A.MultAT(XI) : A.Mult(XI), "integer vector product");
            Vector<int> yi(len, 3);
            if (tr) A.MultAT(XI, VectorView<int>(yi)); else A.Mult(XI, VectorView<int>(yi));
            for (int i = 0; i < len; ++i) CHECK(yi[i] == (int)w[i], KP, "integer output entry %d is %d, expected %g", i, yi[i], w[i]);
        }
        if (!tr)
        {
            std::vector<double> z = gen_vec<double>(r, len, mode);
            long double s = 0, t = 0; for (int i = 0; i < len; ++i) { s += (long double)w[i] * z[i]; t += std::fabs(g[i] * z[i]); }
            STEP("InnerProduct");
            double got = A.InnerProduct(X, Vector<double>(z));
            CHECK(near(got, (double)s, (double)t, in + len), KP, "y^T A x is %.17g, expected %.17g", got, (double)s);
        }
    }
    unchanged(A, RA, "vector product");
}

// ------------------------------------------------------------ arithmetic (C09)
FAMILY(darith, "dense.arith")
{
    Rng& r = c.r;
    const int mode = r.range(0, 3);
    int m = c.size(), n = c.size();
    Ref R = gen_ref(r, m, n, mode);
    DenseMatrix A = dense_of(R);
    sigref(c, R);
    c.nontrivial = m > 0 && n > 0;
    c.describe("%dx%d mode=%d ops:", m, n, mode);
    Ref tolmag(m, n); for (size_t q = 0; q < R.a.size(); ++q) tolmag.a[q] = std::fabs(R.a[q]);
    int steps = r.range(1, 7);
    for (int s = 0; s < steps; ++s)
    {
        int op = r.range(0, 13);
        c.mix(op); c.describe(" %d", op);
        Ref S = gen_ref(r, m, n, mode);
        double a = gen_nz(r, std::min(mode, 2)); // bounded growth over the chain
        if (std::fabs(a) < 1e-3) a = 0.5;
        // operands whose scale stays near one for divisions
        std::vector<double> rv = gen_vec<double>(r, m, mode == 0 ? 0 : 1), cv = gen_vec<double>(r, n, mode == 0 ? 0 : 1);
        std::vector<double> rz(rv), cz(cv); for (double& v : rz) if (v == 0) v = 2; for (double& v : cz) if (v == 0) v = -2;
        auto upd = [&](std::function<double(int, int)> val, std::function<double(int, int)> mag)
        { for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { double v = val(i, j), g = mag(i, j); R(i, j) = v; tolmag(i, j) = g; } };
        DenseMatrix B = dense_of(S);
        switch (op)
        {
            case 0: STEP("+="); A += B; upd([&](int i, int j) { return R(i, j) + S(i, j); }, [&](int i, int j) { return tolmag(i, j) + std::fabs(S(i, j)); }); break;
            case 1: STEP("-="); A -= B; upd([&](int i, int j) { return R(i, j) - S(i, j); }, [&](int i, int j) { return tolmag(i, j) + std::fabs(S(i, j)); }); break;
            case 2: { STEP("+"); DenseMatrix C = A + B; A = C; upd([&](int i, int j) { return R(i, j) + S(i, j); }, [&](int i, int j) { return tolmag(i, j) + std::fabs(S(i, j)); }); break; }
            case 3: { STEP("-"); DenseMatrix C = A - B; A = C; upd([&](int i, int j) { return R(i, j) - S(i, j); }, [&](int i, int j) { return tolmag(i, j) + std::fabs(S(i, j)); }); break; }
            case 4: STEP("*="); A *= a; upd([&](int i, int j) { return R(i, j) * a; }, [&](int i, int j) { return tolmag(i, j) * std::fabs(a); }); break;
            case 5: STEP("/="); A /= a; upd([&](int i, int j) { return R(i, j) / a; }, [&](int i, int j) { return tolmag(i, j) / std::fabs(a); }); break;
            case 6: { STEP("A*a"); A = r.chance(1, 2) ? A * a : a * A; upd([&](int i, int j) { return R(i, j) * a; }, [&](int i, int j) { return tolmag(i, j) * std::fabs(a); }); break; }
            case 7: { STEP("A/a"); A = A / a; upd([&](int i, int j) { return R(i, j) / a; }, [&](int i, int j) { return tolmag(i, j) / std::fabs(a); }); break; }
            case 8:
            {
                STEP("ScaleRows");
                if (r.chance(1, 2)) A.ScaleRows(rv); else A.ScaleRows(Vector<double>(rv));
                upd([&](int i, int j) { return R(i, j) * rv[i]; }, [&](int i, int j) { return tolmag(i, j) * std::fabs(rv[i]); });
                break;
            }
            case 9:
            {
                STEP("ScaleCols");
                if (r.chance(1, 2)) A.ScaleCols(cv); else A.ScaleCols(Vector<double>(cv));
                upd([&](int i, int j) { return R(i, j) * cv[j]; }, [&](int i, int j) { return tolmag(i, j) * std::fabs(cv[j]); });
                break;
            }
            case 10: STEP("InverseScaleRows"); if (r.chance(1, 2)) A.InverseScaleRows(rz); else A.InverseScaleRows(Vector<double>(rz)); upd([&](int i, int j) { return R(i, j) / rz[i]; }, [&](int i, int j) { return tolmag(i, j) / std::fabs(rz[i]); }); break;
            case 11: STEP("InverseScaleCols"); if (r.chance(1, 2)) A.InverseScaleCols(cz); else A.InverseScaleCols(Vector<double>(cz)); upd([&](int i, int j) { return R(i, j) / cz[j]; }, [&](int i, int j) { return tolmag(i, j) / std::fabs(cz[j]); }); break;
            case 12: if (r.chance(1, 4)) { STEP("=scalar"); A = a; upd([&](int, int) { return a; }, [&](int, int) { return std::fabs(a); }); } break;
            case 13:
                STEP("A+=A / A-=A");
                if (r.chance(1, 4)) { A -= A; upd([&](int, int) { return 0.0; }, [&](int, int) { return 0.0; }); }
                else { A += A; upd([&](int i, int j) { return R(i, j) * 2; }, [&](int i, int j) { return tolmag(i, j) * 2; }); }
                break;
        }
        unchanged(B, S, "arithmetic");
        same_values(ref_of(A), R, &tolmag, 8 * (s + 1), KA, "arithmetic");
        R = ref_of(A); // continue from the stored values
    }
    STEP("Transpose");
    same_values(ref_of(A.Transpose()), transpose(R), nullptr, 0, KA, "transpose");
    DenseMatrix T = stale(r, n, m);
    A.Transpose(T);
    same_values(ref_of(T), transpose(R), nullptr, 0, KA, "transpose into an argument");
    if (m > 0 && n > 0)
    {
        long double s = 0, t = 0; double mx = R.a[0], mn = R.a[0];
        for (double v : R.a) { s += v; t += std::fabs(v); mx = std::max(mx, v); mn = std::min(mn, v); }
        STEP("Sum/Max/Min");
        CHECK(near(A.Sum(), (double)s, (double)t, (double)m * n), KA, "Sum is %.17g, expected %.17g", A.Sum(), (double)s);
        CHECK(A.Max() == mx, KA, "Max is %.17g, expected %.17g", A.Max(), mx);
        CHECK(A.Min() == mn, KA, "Min is %.17g, expected %.17g", A.Min(), mn);
    }
    STEP("==");
    DenseMatrix E(A);
    CHECK(A == E && A == A, KA, "a matrix differs from its copy");
    if (m > 0 && n > 0)
    {
        int i = r.range(0, m - 1), j = r.range(0, n - 1);
        E(i, j) += 1e-3 + std::fabs(E(i, j));
        CHECK(!(A == E) && !(E == A), KA, "matrices that differ at (%d,%d) compare equal", i, j);
    }
    CHECK(!(A == DenseMatrix(m + 1, n)) && !(A == DenseMatrix(m, n + 1)), KA, "matrices of different shape compare equal");
    if (m != n) CHECK(!(A == DenseMatrix(n, m)), KA, "matrices of different shape compare equal");
    STEP("CopyData/GetData");
    std::vector<double> cp(r.range(0, 9), 4.0);
    A.CopyData(cp);
    CHECK((long)cp.size() == (long)m * n, KA, "CopyData size");
    for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) CHECK(cp[i + (size_t)j * m] == R(i, j) && (m * n == 0 || A.GetData()[i + (size_t)j * m] == R(i, j)), KA, "column-major data at (%d,%d)", i, j);
    STEP("Print");
    std::ostringstream os; A.Print("label", os, 30, 12);
    if (m * n > 0 && mode != 3)
    {
        std::istringstream is(os.str()); std::string lab; is >> lab;
        for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j)
        {
            double v; if (std::fabs(R(i, j)) > 1e12) { is >> v; continue; }
            CHECK((bool)(is >> v) && std::fabs(v - R(i, j)) <= 1e-11 + 1e-12 * std::fabs(R(i, j)), KA, "printed entry (%d,%d)", i, j);
        }
    }
}

// ------------------------------------------------------------ blocks (C10)
std::vector<int> pick_idx(Rng& r, int n, bool distinct)
{
    std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i;
    r.shuffle(p);
    if (distinct) { p.resize(n ? r.range(0, n) : 0); return p; }
    std::vector<int> q(n ? r.range(0, std::min(n + 2, 12)) : 0); for (int& i : q) i = r.range(0, n - 1);
    return q;
}
void exact(const DenseMatrix& A, const Ref& R, const char* what)
{
    CHECK(A.Rows() == R.m && A.Cols() == R.n, KB, "%s: shape %dx%d, expected %dx%d", what, A.Rows(), A.Cols(), R.m, R.n);
    count("monitor: dense matrix compared entry by entry");
    for (int i = 0; i < R.m; ++i) for (int j = 0; j < R.n; ++j)
        CHECK(A(i, j) == R(i, j), KB, "%s: entry (%d,%d) is %.17g, expected %.17g", what, i, j, A(i, j), R(i, j));
}
FAMILY(dblock, "dense.blocks")
{
    Rng& r = c.r;
    int m = c.size(), n = r.chance(1, 3) ? m : c.size();
    Ref R = gen_ref(r, m, n, 2);
    DenseMatrix A = dense_of(R);
    sigref(c, R);
    c.nontrivial = m > 1 && n > 1;
    c.describe("%dx%d ops:", m, n);
    int steps = r.range(2, 12);
    for (int s = 0; s < steps; ++s)
    {
        int op = r.range(0, 21);
        c.mix(op); c.describe(" %d", op);
        m = R.m; n = R.n;
        int i0 = r.range(0, m), i1 = r.range(i0, m), j0 = r.range(0, n), j1 = r.range(j0, n);
        int bm = i1 - i0, bn = j1 - j0;
        auto block = [&](int a, int b, int e, int f) { Ref B(e - a, f - b); for (int i = a; i < e; ++i) for (int j = b; j < f; ++j) B(i - a, j - b) = R(i, j); return B; };
        const DenseMatrix& CA = A;
        c.mix(i0 * 1000 + i1); c.mix(j0 * 1000 + j1);
        switch (op)
        {
            case 0: STEP("GetRow(range)"); { exact(CA.GetRow(i0, i1), block(i0, 0, i1, n), "GetRow(range)"); DenseMatrix D = stale(r, bm, n); CA.GetRow(i0, i1, D); exact(D, block(i0, 0, i1, n), "GetRow(range,out)"); break; }
            case 1: STEP("GetCol(range)"); { exact(CA.GetCol(j0, j1), block(0, j0, m, j1), "GetCol(range)"); DenseMatrix D = stale(r, m, bn); CA.GetCol(j0, j1, D); exact(D, block(0, j0, m, j1), "GetCol(range,out)"); break; }
            case 2: STEP("GetSubMatrix(range)"); { exact(CA.GetSubMatrix(i0, j0, i1, j1), block(i0, j0, i1, j1), "GetSubMatrix"); DenseMatrix D = stale(r, bm, bn); CA.GetSubMatrix(i0, j0, i1, j1, D); exact(D, block(i0, j0, i1, j1), "GetSubMatrix(out)"); break; }
            case 3:
            {
                std::vector<int> I = pick_idx(r, m, r.chance(1, 2)), J = pick_idx(r, n, r.chance(1, 2));
                Ref B((int)I.size(), (int)J.size());
                for (int i = 0; i < B.m; ++i) for (int j = 0; j < B.n; ++j) B(i, j) = R(I[i], J[j]);
                STEP("GetSubMatrix(lists)");
                exact(CA.GetSubMatrix(I, J), B, "GetSubMatrix(lists)");
                DenseMatrix D = stale(r, B.m, B.n); CA.GetSubMatrix(I, J, D); exact(D, B, "GetSubMatrix(lists,out)");
                break;
            }
            case 4:
            {
                std::vector<int> I = pick_idx(r, m, false);
                Ref B((int)I.size(), n);
                for (int i = 0; i < B.m; ++i) for (int j = 0; j < n; ++j) B(i, j) = R(I[i], j);
                STEP("GetRow(list)");
                exact(CA.GetRow(I), B, "GetRow(list)");
                DenseMatrix D(B.m, n); D = 4.0; CA.GetRow(I, D); exact(D, B, "GetRow(list,out)");
                break;
            }
            case 5: { Ref B = gen_ref(r, bm, n, 2); STEP("SetRow(dense)"); A.SetRow(i0, dense_of(B)); for (int i = 0; i < bm; ++i) for (int j = 0; j < n; ++j) R(i0 + i, j) = B(i, j); break; }
            case 6: { Ref B = gen_ref(r, m, bn, 2); STEP("SetCol(dense)"); A.SetCol(j0, dense_of(B)); for (int i = 0; i < m; ++i) for (int j = 0; j < bn; ++j) R(i, j0 + j) = B(i, j); break; }
            case 7: { Ref B = gen_ref(r, bm, bn, 2); STEP("SetSubMatrix"); A.SetSubMatrix(i0, j0, dense_of(B)); for (int i = 0; i < bm; ++i) for (int j = 0; j < bn; ++j) R(i0 + i, j0 + j) = B(i, j); break; }
            case 8:
            {
                Ref B = gen_ref(r, bm, bn, 2);
                STEP("SetSubMatrix(range)"); A.SetSubMatrix(i0, j0, i1, j1, dense_of(B));
                for (int i = 0; i < bm; ++i) for (int j = 0; j < bn; ++j) R(i0 + i, j0 + j) = B(i, j);
                break;
            }
            case 9: { Ref B = gen_ref(r, bn, bm, 2); STEP("SetSubMatrixTranspose"); A.SetSubMatrixTranspose(i0, j0, dense_of(B)); for (int i = 0; i < bm; ++i) for (int j = 0; j < bn; ++j) R(i0 + i, j0 + j) = B(j, i); break; }
            case 10:
            {
                Ref B = gen_ref(r, bn, bm, 2);
                STEP("SetSubMatrixTranspose(range)"); A.SetSubMatrixTranspose(i0, j0, i1, j1, dense_of(B));
                for (int i = 0; i < bm; ++i) for (int j = 0; j < bn; ++j) R(i0 + i, j0 + j) = B(j, i);
                break;
            }
            case 11:
            {
                std::vector<int> I = pick_idx(r, m, true), J = pick_idx(r, n, true);
                bool one = r.chance(1, 3); // the same list for rows and columns
                if (one) { I = pick_idx(r, std::min(m, n), true); J = I; }
                Ref B = gen_ref(r, (int)I.size(), (int)J.size(), 2);
                STEP("AddSubMatrix"); A.AddSubMatrix(I, one ? I : J, dense_of(B));
                for (int i = 0; i < B.m; ++i) for (int j = 0; j < B.n; ++j) R(I[i], J[j]) += B(i, j);
                break;
            }
            case 12: if (n > 0)
            {
                int j = r.range(0, n - 1);
                STEP("GetColView"); VectorView<double> v = A.GetColView(j);
                CHECK(v.size() == m, KB, "column view size");
                for (int i = 0; i < m; ++i) CHECK(v[i] == R(i, j), KB, "column view entry %d", i);
                if (m > 0) { int i = r.range(0, m - 1); v[i] = 0.125; R(i, j) = 0.125; A(r.range(0, 0), j) += 0; }
                if (r.chance(1, 3)) { v *= 2.0; for (int i = 0; i < m; ++i) R(i, j) *= 2; }
                const VectorView<double>& w = CA.GetColView(j);
                for (int i = 0; i < m; ++i) CHECK(w[i] == R(i, j), KB, "const column view entry %d", i);
            } break;
            case 13: if (n > 0)
            {
                int j = r.range(0, n - 1);
                STEP("GetCol(j)"); Vector<double> v = CA.GetCol(j), w(m, 5.0), x(m, 6.0);
                CA.GetCol(j, w); A.GetCol(j, x);
                Vector<double> y = A.GetCol(j);
                for (int i = 0; i < m; ++i) CHECK(v[i] == R(i, j) && w[i] == R(i, j) && x[i] == R(i, j) && y[i] == R(i, j), KB, "GetCol(%d) entry %d", j, i);
                if (m > 0) { v[0] += 1; w[0] += 1; x[0] += 1; y[0] += 1; } // copies, not views
            } break;
            case 14: if (m > 0)
            {
                int i = r.range(0, m - 1);
                STEP("GetRow(i)"); Vector<double> v = CA.GetRow(i), w(n, 5.0);
                CA.GetRow(i, w);
                CHECK(v.size() == n, KB, "GetRow size");
                for (int j = 0; j < n; ++j) CHECK(v[j] == R(i, j) && w[j] == R(i, j), KB, "GetRow(%d) entry %d", i, j);
                if (n > 0) { v[0] += 1; w[0] += 1; }
            } break;
            case 15: if (n > 0)
            {
                int j = r.range(0, n - 1);
                STEP("SetCol(j)");
                if (r.chance(1, 2)) { std::vector<double> v = gen_vec<double>(r, m, 2); A.SetCol(j, Vector<double>(v)); for (int i = 0; i < m; ++i) R(i, j) = v[i]; }
                else { std::vector<int> v = gen_vec<int>(r, m, 0); A.SetCol(j, Vector<int>(v)); for (int i = 0; i < m; ++i) R(i, j) = v[i]; }
            } break;
            case 16: if (m > 0)
            {
                int i = r.range(0, m - 1);
                STEP("SetRow(i)");
                std::vector<double> v = gen_vec<double>(r, n, 2); A.SetRow(i, Vector<double>(v)); for (int j = 0; j < n; ++j) R(i, j) = v[j];
            } break;
            case 17: if (m == n)
            {
                STEP("GetDiag"); std::vector<double> d = CA.GetDiag(), e(n, 9.0); CA.GetDiag(e);
                CHECK((int)d.size() == n, KB, "GetDiag size");
                for (int i = 0; i < n; ++i) CHECK(d[i] == R(i, i) && e[i] == R(i, i), KB, "diagonal entry %d", i);
            } break;
            case 18:
            {
                int parts = r.range(1, 4);
                std::vector<DenseMatrix> L; std::vector<Ref> LR; int tot = 0;
                for (int q = 0; q < parts; ++q)
                {
                    Ref B = r.chance(1, 3) ? R : gen_ref(r, m, r.chance(1, 4) ? 0 : r.range(1, 6), 2);
                    LR.push_back(B); L.push_back(dense_of(B)); tot += B.n;
                }
                Ref W(m, tot); int at = 0;
                for (auto& B : LR) { for (int i = 0; i < m; ++i) for (int j = 0; j < B.n; ++j) W(i, at + j) = B(i, j); at += B.n; }
                STEP("HStack"); exact(HStack(L), W, "HStack");
                DenseMatrix D = stale(r, m, tot); HStack(L, D); exact(D, W, "HStack(out)");
                for (size_t q = 0; q < L.size(); ++q) exact(L[q], LR[q], "HStack operand");
                break;
            }
            case 19:
            {
                // same number of rows: the column-major storage keeps the leading columns, new entries get the value
                int n2 = r.range(0, n + 4);
                double v = r.chance(1, 2) ? 0.0 : 3.5;
                STEP("SetSize(rows,cols[,v])");
                bool given = v != 0.0;
                if (given) A.SetSize(m, n2, v); else A.SetSize(m, n2);
                Ref W(m, n2);
                for (int i = 0; i < m; ++i) for (int j = 0; j < n2; ++j)
                {
                    if (j < n) W(i, j) = R(i, j);
                    else if (given) W(i, j) = v;
                    else { A(i, j) = 0.75; W(i, j) = 0.75; } // documented as uninitialised: only addressable
                }
                R = W;
                break;
            }
            case 20:
            {
                int m2 = r.range(0, 9), n2 = r.chance(1, 3) ? m2 : r.range(0, 9);
                STEP("SetSize(other shape)");
                if (m2 == n2 && r.chance(1, 2)) { if (r.chance(1, 2)) A.SetSize(m2); else A.SetSize(m2, 2.5); } else A.SetSize(m2, n2);
                CHECK(A.Rows() == m2 && A.Cols() == n2, KB, "SetSize gave %dx%d", A.Rows(), A.Cols());
                A = 1.5;
                R = Ref(m2, n2); for (double& v : R.a) v = 1.5;
                for (int i = 0; i < m2; ++i) for (int j = 0; j < n2; ++j) { double v = gen_val(r, 2); A(i, j) = v; R(i, j) = v; }
                break;
            }
            case 21:
            {
                std::vector<double> d = gen_vec<double>(r, m * n, 2);
                STEP("construct from data"); DenseMatrix D(m, n, d);
                Ref W(m, n); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) W(i, j) = d[i + (size_t)j * m];
                exact(D, W, "constructed from column-major data");
                DenseMatrix Z(m, n); exact(Z, Ref(m, n), "constructed");
                if (m == n) { DenseMatrix Y(m); exact(Y, Ref(m, n), "constructed square"); }
                break;
            }
        }
        exact(A, R, "after the operation");
    }
}

// ------------------------------------------------------------ factorisations (C11)
// random matrix with prescribed singular values: U diag(s) V^T from Householder reflections
Ref orth(Rng& r, int n)
{
    Ref Q(n, n); for (int i = 0; i < n; ++i) Q(i, i) = 1;
    int refl = std::min(n, 4);
    for (int q = 0; q < refl; ++q)
    {
        std::vector<double> v(n); double s = 0;
        for (double& x : v) { x = r.uniform(-1, 1); s += x * x; }
        if (s == 0) continue;
        for (int j = 0; j < n; ++j)
        {
            double t = 0; for (int i = 0; i < n; ++i) t += v[i] * Q(i, j);
            t *= 2 / s; for (int i = 0; i < n; ++i) Q(i, j) -= t * v[i];
        }
    }
    return Q;
}
Ref with_sv(Rng& r, int m, int n, const std::vector<double>& s)
{
    Ref U = orth(r, m), V = orth(r, n), A(m, n);
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j)
    {
        long double t = 0; for (size_t k = 0; k < s.size(); ++k) t += (long double)U(i, (int)k) * s[k] * V(j, (int)k);
        A(i, j) = (double)t;
    }
    return A;
}
double fro(const Ref& A) { long double s = 0; for (double v : A.a) s += (long double)v * v; return (double)std::sqrt(s); }

// matrices with structure in their zero pattern (a shortcut for a special form must really be for that form)
bool kept(Rng& r, int shape, int i, int j, const std::vector<int>& group, int dens)
{
    switch (shape)
    {
        case 0: return r.chance(1, dens);
        case 1: return (i + j) % 2 == 0;                       // two interleaved blocks
        case 2: return std::abs(i - j) == dens;                // one pair of distant diagonals
        case 3: return i > j;                                  // triangular
        case 4: return i < j;
        case 5: return i == 0 || j == 0;                       // arrow
        case 6: return group[i] == group[j];                   // shuffled block diagonal
        case 7: return i == dens || j == dens;                 // arrow through an inner row
        case 8: return std::abs(i - j) <= dens;                // band
        default: return r.chance(1, 20);
    }
}
Ref patterned(Rng& r, int m, int n, bool symmetric, double margin)
{
    const int shape = r.range(0, 9), dens = r.range(2, 4), mode = r.range(0, 1) ? 0 : 2;
    std::vector<int> group(std::max(m, n)); for (int& g : group) g = r.range(0, 3);
    Ref A(m, n);
    for (int i = 0; i < m; ++i) for (int j = symmetric ? i + 1 : 0; j < n; ++j)
    {
        if (i == j || !kept(r, shape, i, j, group, dens)) continue;
        A(i, j) = gen_nz(r, mode); if (symmetric) A(j, i) = A(i, j);
    }
    for (int i = 0; i < std::min(m, n); ++i) { double s = 0; for (int j = 0; j < n; ++j) s += std::fabs(A(i, j)); A(i, i) = margin < 0 ? (r.chance(1, 2) ? gen_val(r, mode) : 0) : (s + margin) * (r.chance(1, 2) ? 1 : -1); }
    return A;
}
double row_norm(const Ref& A) { double m = 0; for (int i = 0; i < A.m; ++i) { double s = 0; for (int j = 0; j < A.n; ++j) s += std::fabs(A(i, j)); m = std::max(m, s); } return m; }
void shuffle_rows(Rng& r, Ref& A) { std::vector<int> p(A.m); for (int i = 0; i < A.m; ++i) p[i] = i; r.shuffle(p); Ref B(A.m, A.n); for (int i = 0; i < A.m; ++i) for (int j = 0; j < A.n; ++j) B(i, j) = A(p[i], j); A = B; }

// reference spectrum: cyclic Jacobi in extended precision
std::vector<double> jacobi(const Ref& A)
{
    int n = A.m;
    std::vector<long double> a(A.a.begin(), A.a.end());
    auto at = [&](int i, int j) -> long double& { return a[(size_t)i * n + j]; };
    long double tot = 0; for (auto v : a) tot += v * v;
    for (int sweep = 0; sweep < 60; ++sweep)
    {
        long double off = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) off += at(i, j) * at(i, j);
        if (off <= tot * 1e-34L) break;
        for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q)
        {
            long double apq = at(p, q); if (apq == 0) continue;
            long double th = (at(q, q) - at(p, p)) / (2 * apq);
            long double t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), cc = 1 / std::sqrt(t * t + 1), s = t * cc;
            for (int k = 0; k < n; ++k) { long double x = at(k, p), y = at(k, q); at(k, p) = cc * x - s * y; at(k, q) = s * x + cc * y; }
            for (int k = 0; k < n; ++k) { long double x = at(p, k), y = at(q, k); at(p, k) = cc * x - s * y; at(q, k) = s * x + cc * y; }
        }
    }
    std::vector<double> e(n); for (int i = 0; i < n; ++i) e[i] = (double)at(i, i);
    std::sort(e.begin(), e.end());
    return e;
}
FAMILY(dinv, "dense.invert")
{
    Rng& r = c.r;
    int n = c.size(); if (n > 60) n = 60;
    Ref R(n, n);
    double cond = 1;
    int kind = r.range(0, 7);
    if (kind >= 5) { R = patterned(r, n, n, r.chance(1, 3), 1.0); cond = row_norm(R) * (n + 1); if (r.chance(1, 3)) shuffle_rows(r, R); if (r.chance(1, 3)) R = transpose(R); }
    else if (kind == 0) { for (int i = 0; i < n; ++i) R(i, i) = gen_nz(r, 0); cond = 25; std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; r.shuffle(p); Ref S(n, n); for (int i = 0; i < n; ++i) S(i, p[i]) = R(i, i); R = S; } // scaled permutation: needs pivoting
    else if (kind == 1) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) R(i, j) = i == j ? 2.0 * n : r.uniform(-1, 1); cond = 10; }
    else
    {
        cond = std::pow(10.0, r.uniform(0, 8));
        std::vector<double> s(n); for (int i = 0; i < n; ++i) s[i] = n > 1 ? std::pow(cond, -(double)i / (n - 1)) : 1;
        R = with_sv(r, n, n, s);
        double sc = std::pow(10.0, r.range(-5, 5)); for (double& v : R.a) v *= sc;
    }
    sigref(c, R); c.nontrivial = n > 1;
    c.describe("n=%d kind=%d cond=%.1e", n, kind, cond);
    DenseMatrix A = dense_of(R);
    DenseMatrix inv = stale(r, n, n);
    STEP("Invert(out)"); A.Invert(inv);
    unchanged(A, R, "Invert(out)");
    STEP("Invert()"); DenseMatrix B(A); B.Invert();
    for (int w = 0; w < 2; ++w)
    {
        Ref X = ref_of(w ? B : inv);
        CHECK(X.m == n && X.n == n, "invert", "inverse is %dx%d", X.m, X.n);
        for (int side = 0; side < 2; ++side)
        {
            Ref P = side ? multiply(X, R) : multiply(R, X);
            double tol = 1e-14 * (n + 10) * cond * 20;
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
                CHECK(std::fabs(P(i, j) - (i == j)) <= tol, "invert", "%s entry (%d,%d) is %.17g (tolerance %g)", side ? "inverse*A" : "A*inverse", i, j, P(i, j), tol);
        }
    }
    // earlier calls do not matter
    STEP("Invert again"); DenseMatrix B2(A); B2.Invert();
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) CHECK(B2(i, j) == B(i, j), "invert", "a second inversion differs at (%d,%d)", i, j);
}

FAMILY(dqr, "dense.qr")
{
    Rng& r = c.r;
    int m = c.size(), n = r.chance(1, 3) ? m : c.size();
    m = std::min(m, 60); n = std::min(n, 60);
    int k = std::min(m, n);
    bool full = r.chance(3, 4);
    std::vector<double> s(k); double cond = std::pow(10.0, r.uniform(0, 5));
    for (int i = 0; i < k; ++i) s[i] = k > 1 ? std::pow(cond, -(double)i / (k - 1)) : 1;
    if (!full) for (int i = 0; i < k; ++i) if (r.chance(1, 2)) s[i] = 0;
    Ref R = with_sv(r, m, n, s);
    if (r.chance(1, 6)) { for (double& v : R.a) v = 0; full = false; for (int i = 0; i < k; ++i) { R(i, i) = i + 1; } full = true; cond = k + 1; }
    if (r.chance(1, 3)) { full = true; R = patterned(r, std::max(m, n), k, false, 1.0); if (r.chance(1, 2)) shuffle_rows(r, R); if (m < n) R = transpose(R); cond = row_norm(R) * (n + m); }
    sigref(c, R); c.nontrivial = k > 1;
    c.describe("%dx%d full=%d cond=%.1e", m, n, (int)full, cond);
    DenseMatrix A = dense_of(R), Q = stale(r, m, k);
    STEP("QR(out)"); A.QR(Q);
    unchanged(A, R, "QR(out)");
    STEP("QR()"); DenseMatrix B(A); B.QR();
    CHECK(B.Rows() == Q.Rows() && B.Cols() == Q.Cols(), "qr", "the two QR forms return different shapes");
    for (int w = 0; w < 2; ++w)
    {
        Ref X = ref_of(w ? B : Q);
        CHECK(X.m == m && (k == 0 || X.n >= k), "qr", "Q is %dx%d for a %dx%d input", X.m, X.n, m, n);
        if (k == 0) continue;
        // orthonormal leading columns
        for (int a = 0; a < k; ++a) for (int b = 0; b <= a; ++b)
        {
            long double t = 0; for (int i = 0; i < m; ++i) t += (long double)X(i, a) * X(i, b);
            CHECK(std::fabs((double)t - (a == b)) <= 1e-13 * (m + 10), "qr", "columns %d and %d of Q have inner product %.17g", a, b, (double)t);
        }
        if (full || !full)
        {
            // every column of A lies in the span: A - Q Q^T A = 0 (for rank-deficient A too: A = Q R P^T)
            for (int j = 0; j < n; ++j)
            {
                std::vector<double> res(m); double nrm = 0;
                for (int i = 0; i < m; ++i) { res[i] = R(i, j); nrm += R(i, j) * R(i, j); }
                for (int a = 0; a < k; ++a)
                {
                    long double t = 0; for (int i = 0; i < m; ++i) t += (long double)X(i, a) * R(i, j);
                    for (int i = 0; i < m; ++i) res[i] -= (double)t * X(i, a);
                }
                double e = 0; for (double v : res) e += v * v;
                CHECK(std::sqrt(e) <= 1e-13 * (m + n + 10) * (fro(R) + DBL_MIN), "qr", "column %d of A is not in the span of Q: distance %.3g of %.3g", j, std::sqrt(e), std::sqrt(nrm));
            }
        }
    }
}

FAMILY(dsvd, "dense.svd")
{
    Rng& r = c.r;
    int m = c.size(), n = r.chance(1, 3) ? m : c.size();
    m = std::min(m, 60); n = std::min(n, 60);
    int k = std::min(m, n);
    std::vector<double> s(k);
    double cond = std::pow(10.0, r.uniform(0, 7));
    int kind = r.range(0, 3);
    for (int i = 0; i < k; ++i) s[i] = kind == 0 ? (i % 3 == 0 ? 1.0 : 0.5) : (k > 1 ? std::pow(cond, -(double)i / (k - 1)) : 1);
    if (kind == 3) for (int i = 0; i < k; ++i) if (r.chance(1, 2)) s[i] = 0;
    Ref R = with_sv(r, m, n, s);
    double sc = r.chance(1, 3) ? std::pow(10.0, r.range(-6, 6)) : 1;
    const bool pattern = r.chance(1, 3);
    if (pattern)
    {
        R = patterned(r, m, n, false, r.chance(1, 2) ? 1.0 : -1.0);
        Ref G = m <= n ? multiply(R, transpose(R)) : multiply(transpose(R), R);
        s = jacobi(G); for (double& v : s) v = std::sqrt(std::max(v, 0.0));
    }
    for (double& v : R.a) v *= sc;
    for (double& v : s) v *= sc;
    std::sort(s.rbegin(), s.rend());
    sigref(c, R); c.nontrivial = k > 1;
    c.describe("%dx%d kind=%d cond=%.1e scale=%.0e", m, n, kind, cond, sc);
    DenseMatrix A = dense_of(R), U = stale(r, m, n);
    STEP("SVD(out)"); std::vector<double> S1 = A.SVD(U);
    unchanged(A, R, "SVD(out)");
    STEP("SVD()"); DenseMatrix B(A); std::vector<double> S2 = B.SVD();
    double top = k ? s[0] : 0;
    for (int w = 0; w < 2; ++w)
    {
        const std::vector<double>& S = w ? S2 : S1;
        CHECK((int)S.size() == k, "svd", "%zu singular values for a %dx%d matrix", S.size(), m, n);
        for (int i = 0; i < k; ++i)
        {
            CHECK(S[i] >= 0, "svd", "singular value %d is %.17g", i, S[i]);
            if (i) CHECK(S[i] <= S[i - 1], "svd", "singular values increase at %d", i);
            // the reference of a patterned matrix comes from its squares
            if (pattern) CHECK(std::fabs(S[i] - s[i]) * (S[i] + s[i]) <= 1e-13 * (m + n + 10) * top * top + DBL_MIN, "svd", "singular value %d is %.17g, expected %.17g", i, S[i], s[i]);
            else CHECK(std::fabs(S[i] - s[i]) <= 1e-13 * (m + n + 10) * (top + DBL_MIN), "svd", "singular value %d is %.17g, expected %.17g", i, S[i], s[i]);
        }
        if (k == 0) continue;
        Ref X = ref_of(w ? B : U);
        CHECK(X.m == m && X.n >= k, "svd", "U is %dx%d", X.m, X.n);
        for (int a = 0; a < k; ++a) for (int b = 0; b <= a; ++b)
        {
            long double t = 0; for (int i = 0; i < m; ++i) t += (long double)X(i, a) * X(i, b);
            CHECK(std::fabs((double)t - (a == b)) <= 1e-13 * (m + 10), "svd", "left singular vectors %d and %d have inner product %.17g", a, b, (double)t);
        }
        // A A^T u = s^2 u, that is |A^T u| = s and the images are orthogonal
        for (int a = 0; a < k; ++a)
        {
            std::vector<double> y(n, 0.0); for (int j = 0; j < n; ++j) { long double t = 0; for (int i = 0; i < m; ++i) t += (long double)R(i, j) * X(i, a); y[j] = (double)t; }
            double nn = 0; for (double v : y) nn += v * v;
            CHECK(std::fabs(std::sqrt(nn) - S[a]) <= 1e-12 * (m + n + 10) * (top + DBL_MIN), "svd", "|A^T u_%d| is %.17g, singular value %.17g", a, std::sqrt(nn), S[a]);
            std::vector<double> z(m); for (int i = 0; i < m; ++i) { long double t = 0; for (int j = 0; j < n; ++j) t += (long double)R(i, j) * y[j]; z[i] = (double)t; }
            double e = 0; for (int i = 0; i < m; ++i) { double d = z[i] - S[a] * S[a] * X(i, a); e += d * d; }
            CHECK(std::sqrt(e) <= 1e-12 * (m + n + 10) * top * top + DBL_MIN, "svd", "u_%d is not a left singular vector: residual %.3g", a, std::sqrt(e));
        }
    }
}

// ------------------------------------------------------------ eigenpairs (C12)
Ref gen_sym(Ctx& c, int n, int* kind)
{
    Rng& r = c.r;
    Ref A(n, n);
    *kind = r.range(0, 12);
    switch (*kind)
    {
        case 0: for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) A(i, j) = A(j, i) = r.uniform(-1, 1); break;
        case 1: // SPD
        {
            Ref Q = orth(r, n); std::vector<double> d(n); for (double& v : d) v = r.uniform(0.1, 4);
            for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { long double t = 0; for (int k = 0; k < n; ++k) t += (long double)Q(i, k) * d[k] * Q(j, k); A(i, j) = A(j, i) = (double)t; }
            break;
        }
        case 2: // clustered and repeated
        {
            Ref Q = orth(r, n); std::vector<double> d(n); for (double& v : d) v = r.range(1, 3) + (r.chance(1, 3) ? 1e-9 * r.range(0, 3) : 0);
            for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { long double t = 0; for (int k = 0; k < n; ++k) t += (long double)Q(i, k) * d[k] * Q(j, k); A(i, j) = A(j, i) = (double)t; }
            break;
        }
        case 3: for (int i = 0; i < n; ++i) A(i, i) = r.chance(1, 2) ? 1.0 : gen_val(r, 0); break; // diagonal
        case 4: // graph Laplacian, possibly disconnected
        {
            int edges = r.range(0, 2 * n);
            for (int e = 0; e < edges; ++e) { int i = r.range(0, n - 1), j = r.range(0, n - 1); if (i == j || A(i, j) != 0) continue; A(i, j) = A(j, i) = -1; A(i, i) += 1; A(j, j) += 1; }
            break;
        }
        case 5: for (int i = 0; i < n; ++i) { A(i, i) = 2; if (i + 1 < n) A(i, i + 1) = A(i + 1, i) = -1; } break; // path
        case 6: { double v = r.chance(1, 3) ? 0.0 : gen_val(r, 2); for (int i = 0; i < n; ++i) A(i, i) = v; break; } // multiple of the identity, zero included
        case 7: // block diagonal: decoupled after reduction
        {
            int i = 0; while (i < n) { int w = std::min(n - i, r.range(1, 4)); for (int a = 0; a < w; ++a) for (int b = a; b < w; ++b) A(i + a, i + b) = A(i + b, i + a) = gen_val(r, 0); i += w; }
            break;
        }
        case 8: // rank one plus shift, negative definite
            { std::vector<double> v = gen_vec<double>(r, n, 2); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = -v[i] * v[j] - (i == j ? 0.5 : 0); break; }
    }
    if (*kind >= 9) A = patterned(r, n, n, true, *kind == 9 ? 1.0 : -1.0);
    if (r.chance(1, 5)) { double s = std::pow(10.0, r.range(-8, 8)); for (double& v : A.a) v *= s; }
    return A;
}
void check_pairs(const Ref& A, const std::vector<double>& ref, const EigenPair& p, double rel_tol, int max_evect, const char* what)
{
    int n = A.m;
    const std::vector<double>& ev = p.first;
    double nrm = 0; for (double v : ref) nrm = std::max(nrm, std::fabs(v));
    int want_cap = max_evect < 0 ? n : std::min(std::max(max_evect, 1), n);
    Ref V = ref_of(p.second);
    CHECK(V.m == n && V.n >= 1 && V.n <= want_cap, "eigen-count", "%s: %dx%d eigenvectors for n=%d, max_evect=%d", what, V.m, V.n, n, max_evect);
    CHECK((int)ev.size() >= V.n && (int)ev.size() <= n, "eigen-count", "%s: %zu eigenvalues", what, ev.size());
    double vtol = 1e-13 * (n + 10) * nrm * 4;
    for (int i = 0; i < (int)ev.size(); ++i)
    {
        if (i) CHECK(ev[i] >= ev[i - 1], "eigen-value", "%s: eigenvalues not ascending at %d", what, i);
        CHECK(std::fabs(ev[i] - ref[i]) <= vtol, "eigen-value", "%s: eigenvalue %d is %.17g, true %.17g", what, i, ev[i], ref[i]);
    }
    // how many the tolerance selects: decided by the true spectrum, up to rounding at the threshold
    double thr = ref.back() * rel_tol, slack = vtol + std::fabs(rel_tol) * vtol + 1e-13 * std::fabs(thr);
    int lo = 1, hi = 1;
    while (lo < want_cap && ref[lo] <= thr - slack) ++lo;
    while (hi < want_cap && ref[hi] <= thr + slack) ++hi;
    CHECK(V.n >= lo && V.n <= hi, "eigen-count", "%s: %d eigenvectors, expected %d..%d (tolerance %g, max %d)", what, V.n, lo, hi, rel_tol, max_evect);
    for (int a = 0; a < V.n; ++a)
    {
        for (int b = 0; b <= a; ++b)
        {
            long double t = 0; for (int i = 0; i < n; ++i) t += (long double)V(i, a) * V(i, b);
            CHECK(std::fabs((double)t - (a == b)) <= 1e-9, "eigen-vector", "%s: eigenvectors %d and %d have inner product %.17g", what, a, b, (double)t);
        }
        double e = 0;
        for (int i = 0; i < n; ++i) { long double t = 0; for (int j = 0; j < n; ++j) t += (long double)A(i, j) * V(j, a); double d = (double)t - ev[a] * V(i, a); e += d * d; }
        CHECK(std::sqrt(e) <= 1e-11 * (n + 10) * nrm, "eigen-vector", "%s: |A v - lambda v| = %.3g for pair %d (norm %.3g)", what, std::sqrt(e), a, nrm);
    }
}
FAMILY(eig, "eigen.history")
{
    Rng& r = c.r;
    EigenSolver S;
    int solves = r.range(1, 4);
    c.describe("solves:");
    c.nontrivial = false;
    EigenPair shared;
    for (int s = 0; s < solves; ++s)
    {
        int n = std::min(c.size(1), 40), kind;
        Ref A = gen_sym(c, n, &kind);
        double tol; int maxe;
        switch (r.range(0, 5)) { case 0: tol = 1.0; break; case 1: tol = 0.0; break; case 2: tol = r.uniform(0, 1); break; case 3: tol = 0.5; break; case 4: tol = 2.0; break; default: tol = 1e-3; }
        switch (r.range(0, 5)) { case 0: maxe = -1; break; case 1: maxe = 0; break; case 2: maxe = 1; break; case 3: maxe = r.range(1, n); break; case 4: maxe = n; break; default: maxe = n + r.range(1, 5); }
        sigref(c, A); c.mix(maxe + 5); c.mixd(tol);
        c.describe(" n=%d kind=%d tol=%.3g max=%d;", n, kind, tol, maxe);
        if (n > 1) c.nontrivial = true;
        std::vector<double> ref = jacobi(A);
        DenseMatrix D = dense_of(A);
        STEP("Solve(dense)");
        EigenPair p = S.Solve(D, tol, maxe);
        check_pairs(A, ref, p, tol, maxe, "dense");
        unchanged(D, A, "EigenSolver::Solve");
        STEP("Solve(dense,pair)");
        S.Solve(D, tol, maxe, shared);
        check_pairs(A, ref, shared, tol, maxe, "reused pair");
        if (r.chance(1, 3))
        {
            SpModel M(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (A(i, j) != 0) M.e[std::make_pair(i, j)] = A(i, j);
            SparseMatrix<double> B = build_csr<double>(r, M, true);
            STEP("Solve(sparse)");
            check_pairs(A, ref, S.Solve(B, tol, maxe), tol, maxe, "sparse");
            if (r.chance(1, 2)) shared = EigenPair(); else { STEP("another problem"); S.Solve(dense_of(gen_sym(c, r.range(1, 5), &kind)), 1.0, -1, shared); STEP("Solve(sparse)"); }
            S.Solve(B, tol, maxe, shared);
            check_pairs(A, ref, shared, tol, maxe, "sparse, reused pair");
        }
        // a fresh solver gives the same eigenvalues
        STEP("fresh Solve");
        EigenSolver F;
        EigenPair q = F.Solve(D, tol, maxe);
        CHECK(q.first.size() == p.first.size() && q.second.Cols() == p.second.Cols(), "eigen-reuse", "a fresh solver returns %d pairs, the used one %d", q.second.Cols(), p.second.Cols());
        check_pairs(A, ref, q, tol, maxe, "fresh");
        double nrm = 0; for (double v : ref) nrm = std::max(nrm, std::fabs(v));
        for (size_t i = 0; i < q.first.size(); ++i) CHECK(std::fabs(q.first[i] - p.first[i]) <= 1e-13 * (n + 10) * nrm, "eigen-reuse", "eigenvalue %zu depends on the solver's history", i);
        if (r.chance(1, 4)) { STEP("copy/move solver"); EigenSolver T(S); EigenSolver U(std::move(T)); S = U; }
        if (r.chance(1, 6)) { STEP("empty problem"); DenseMatrix Z(0, 0); EigenPair z = S.Solve(Z, tol, maxe); CHECK(z.first.empty() && z.second.Cols() == 0, "eigen-count", "empty problem returned %zu eigenvalues", z.first.size()); }
    }
}
} // namespace
