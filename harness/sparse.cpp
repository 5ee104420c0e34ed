// Compressed-row sparse matrices: products (C07), structural edits as histories (C08),
// representation conversions; every matrix handed out passes the structural monitor (C06).
#include "sp.hpp"
using namespace linalgcpp;
using namespace vh;

namespace
{

template <typename T>
void products(Ctx& c)
{
    Rng& r = c.r;
    const int mode = ModeOf<T>::pick(r);
    const int m = c.size(), n = c.size(), k = r.range(0, 9);
    SpModel Am = gen_sp(c, m, n, mode);
    const SparseMatrix<T> A = build_csr<T>(r, Am, r.chance(1, 2));
    const Ref R = Am.dense();
    const int nzr = (int)Am.e.size();
    c.nontrivial = nzr > 0;
    c.mix(m); c.mix(n); for (auto& p : Am.e) { c.mix(p.first.first * 1000 + p.first.second); c.mixd(p.second); }
    const int op = r.range(0, 9);
    c.mix(op);
    c.describe("%dx%d nnz=%d mode=%d op=%d int=%d", m, n, nzr, mode, op, (int)std::is_same<T, int>::value);
    const char* key = "sparse-product";
    std::vector<double> mag;

    auto cmp_vec = [&](const std::vector<double>& got, const std::vector<double>& want, const std::vector<double>& mg, const char* what)
    {
        CHECK(got.size() == want.size(), key, "%s: size %zu expected %zu", what, got.size(), want.size());
        for (size_t i = 0; i < want.size(); ++i)
            CHECK(near(got[i], want[i], mg[i], n + m), key, "%s: entry %zu is %.17g, expected %.17g", what, i, got[i], want[i]);
    };
    auto todbl = [](const VectorView<double>& v) { return std::vector<double>(v.begin(), v.end()); };

    if (op <= 1)
    {
        // matrix-vector, every call form
        const bool tr = op == 1;
        const int nin = tr ? m : n, nout = tr ? n : m;
        // an integer matrix acts on real vectors too; only its value forms, typed by the matrix, need whole numbers
        const bool whole = !std::is_same<T, int>::value || r.chance(1, 2);
        std::vector<double> xv = gen_vec<double>(r, nin, whole ? mode : r.range(1, 3));
        if (!whole) count("integer matrix times a vector of fractions");
        const Vector<double> x(xv);
        std::vector<double> want = tr ? matvec(transpose(R), xv, &mag) : matvec(R, xv, &mag);
        {
            Vector<double> y = stale_vec<double>(r, nout, false);
            STEP(tr ? "MultAT(view,view)" : "Mult(view,view)");
            if (tr) A.MultAT(x, VectorView<double>(y)); else A.Mult(x, VectorView<double>(y));
            cmp_vec(todbl(y), want, mag, "view form");
        }
        {
            Vector<double> y = stale_vec<double>(r, nout, false);
            STEP(tr ? "MultAT(x,y)" : "Mult(x,y)");
            if (tr) A.MultAT(x, y); else A.Mult(x, y);
            cmp_vec(todbl(y), want, mag, "vector form");
        }
        {
            STEP(tr ? "MultAT(x)" : "Mult(x)");
            Vector<double> y = tr ? A.MultAT(x) : A.Mult(x);
            cmp_vec(todbl(y), want, mag, "value form");
        }
        {
            const Operator& op_ = A;
            Vector<double> y = stale_vec<double>(r, nout, true);
            STEP(tr ? "Operator::MultAT" : "Operator::Mult");
            if (tr) op_.MultAT(x, y); else op_.Mult(x, y);
            cmp_vec(todbl(y), want, mag, "operator form");
            Vector<double> z = tr ? op_.MultAT(x) : op_.Mult(x);
            cmp_vec(todbl(z), want, mag, "operator value form");
            if (!tr)
            {
                std::vector<double> wv = gen_vec<double>(r, m, mode);
                long double s = 0, sa = 0;
                for (int i = 0; i < m; ++i) { s += (long double)wv[i] * want[i]; sa += std::fabs(wv[i]) * mag[i]; }
                STEP("InnerProduct");
                double ip = op_.InnerProduct(x, Vector<double>(wv));
                CHECK(near(ip, (double)s, (double)sa, n + m), key, "y^T A x is %.17g, expected %.17g", ip, (double)s);
            }
        }
        {
            // a window of a larger buffer as output: nothing around it may change
            std::vector<double> buf(nout + 8, 5.5);
            STEP("output window");
            VectorView<double> w(buf.data() + 4, nout);
            if (tr) A.MultAT(x, w); else A.Mult(x, w);
            for (int i = 0; i < 4; ++i) CHECK(buf[i] == 5.5 && buf[nout + 4 + i] == 5.5, key, "write outside the output view");
            cmp_vec(std::vector<double>(buf.begin() + 4, buf.begin() + 4 + nout), want, mag, "window form");
        }
        for (int i = 0; i < nin; ++i) CHECK(x[i] == xv[i], "operand-changed", "the product changed its input");
    }
    else if (op == 2)
    {
        // integer vectors
        std::vector<int> xi = gen_vec<int>(r, n, 0), zi = gen_vec<int>(r, m, 0);
        const Vector<int> x(xi), z(zi);
        std::vector<double> xd(xi.begin(), xi.end()), zd(zi.begin(), zi.end()), mag2;
        std::vector<double> want = matvec(R, xd, &mag), want2 = matvec(transpose(R), zd, &mag2);
        STEP("Mult(int vector)");
        Vector<T> y = A.Mult(x);
        cmp_vec(std::vector<double>(y.begin(), y.end()), want, mag, "int input");
        STEP("MultAT(int vector)");
        Vector<T> y2 = A.MultAT(z);
        cmp_vec(std::vector<double>(y2.begin(), y2.end()), want2, mag2, "int input transposed");
        Vector<double> yd = stale_vec<double>(r, m, false);
        STEP("Mult(int,double)");
        A.Mult(x, VectorView<double>(yd));
        cmp_vec(todbl(yd), want, mag, "int to double");
    }
    else if (op == 3)
    {
        Ref Bm = gen_ref(r, n, k, r.chance(1, 2) ? mode : r.range(0, 2)), bnd;
        const DenseMatrix B = dense_of(Bm);
        Ref want = multiply(R, Bm, &bnd);
        STEP("Mult(dense)");
        same_values(ref_of(A.Mult(B)), want, &bnd, n, key, "sparse*dense");
        DenseMatrix C = stale(r, m, k);
        STEP("Mult(dense,out)"); A.Mult(B, C);
        same_values(ref_of(C), want, &bnd, n, key, "sparse*dense out");
        DenseMatrix D = stale(r, k, m);
        STEP("MultCT(dense,out)"); A.MultCT(B, D);
        Ref wt = transpose(want), bt = transpose(bnd);
        same_values(ref_of(D), wt, &bt, n, key, "(sparse*dense)^T out");
        STEP("MultCT(dense)"); same_values(ref_of(A.MultCT(B)), wt, &bt, n, key, "(sparse*dense)^T");
        same_values(ref_of(B), Bm, nullptr, 0, "operand-changed", "dense operand");
    }
    else if (op == 4)
    {
        Ref Bm = gen_ref(r, m, k, r.chance(1, 2) ? mode : r.range(0, 2)), bnd;
        const DenseMatrix B = dense_of(Bm);
        Ref want = multiply(transpose(R), Bm, &bnd);
        STEP("MultAT(dense)");
        same_values(ref_of(A.MultAT(B)), want, &bnd, m, key, "sparse^T*dense");
        DenseMatrix C = stale(r, n, k);
        STEP("MultAT(dense,out)"); A.MultAT(B, C);
        same_values(ref_of(C), want, &bnd, m, key, "sparse^T*dense out");
        same_values(ref_of(B), Bm, nullptr, 0, "operand-changed", "dense operand");
    }
    else if (op <= 7)
    {
        // sparse*sparse; one workspace reused across products of different widths
        std::vector<int> marker;
        if (r.chance(1, 3)) marker.assign(r.range(0, 40), r.range(-3, 40));
        for (int rep = 0; rep < 3; ++rep)
        {
            int p = c.size();
            SpModel Bm = gen_sp(c, n, p, mode);
            c.mix(p); c.mix(Bm.e.size());
            Ref bnd, want = multiply(R, Bm.dense(), &bnd);
            const SparseMatrix<T> B = build_csr<T>(r, Bm, r.chance(1, 2));
            if (op == 5)
            {
                STEP("Mult(sparse)");
                SparseMatrix<T> C = A.Mult(B);
                same_values(wellformed(C, m, p, "sparse product").dense(), want, &bnd, n, key, "sparse*sparse");
            }
            else if (op == 6)
            {
                STEP("Mult(sparse,marker)");
                SparseMatrix<T> C = A.Mult(B, marker);
                same_values(wellformed(C, m, p, "sparse product with workspace").dense(), want, &bnd, n, key, "sparse*sparse workspace");
            }
            else
            {
                SpModel Im = gen_sp(c, n, p, 0);
                SparseMatrix<int> BI = build_csr<int>(r, Im, r.chance(1, 2));
                Ref w2 = multiply(R, Im.dense(), &bnd);
                STEP("Mult(sparse<int>)");
                SparseMatrix<T> C = A.Mult(BI);
                same_values(wellformed(C, m, p, "mixed sparse product").dense(), w2, &bnd, n, key, "sparse*sparse<int>");
                if (std::is_same<T, int>::value)
                {
                    SpModel Dm = gen_sp(c, n, p, 2);
                    SparseMatrix<double> BD = build_csr<double>(r, Dm, r.chance(1, 2));
                    Ref w3 = multiply(R, Dm.dense(), &bnd);
                    SparseMatrix<double> CD = A.Mult(BD);
                    same_values(wellformed(CD, m, p, "int*double product").dense(), w3, &bnd, n, key, "sparse<int>*sparse<double>");
                }
            }
            same_sp(wellformed(B, n, p, "right operand"), Bm, "operand-changed", "right operand");
        }
    }
    else if (op == 8)
    {
        // triple product P^T A P as users build it, and transposes
        int p = c.size();
        SpModel Pm = gen_sp(c, n, p, mode);
        SparseMatrix<T> P = build_csr<T>(r, Pm, r.chance(1, 2));
        STEP("Transpose*Mult");
        SparseMatrix<T> AP = A.Mult(P);
        SparseMatrix<T> APt = AP.Transpose();
        Ref b, w = multiply(R, Pm.dense(), &b);
        Ref wt = transpose(w), bt = transpose(b);
        same_values(wellformed(APt, p, m, "transposed product").dense(), wt, &bt, n, key, "(AP)^T");
    }
    else
    {
        STEP("operator*");
        std::vector<T> xv = gen_vec<T>(r, n, mode);
        std::vector<double> xd(xv.begin(), xv.end());
        std::vector<double> want = matvec(R, xd, &mag);
        const VectorView<T> xview(xv);
        Vector<T> y = A.operator*(xview);
        cmp_vec(std::vector<double>(y.begin(), y.end()), want, mag, "A*x");
    }
    same_sp(wellformed(A, m, n, "left operand"), Am, "operand-changed", "left operand");
}
FAMILY(prod_d, "sparse.products.double") { products<double>(c); }
FAMILY(prod_i, "sparse.products.int") { products<int>(c); }

// ---- conversions between representations of one matrix
template <typename T>
void convert(Ctx& c)
{
    Rng& r = c.r;
    const int mode = ModeOf<T>::pick(r);
    int m = c.size(), n = c.size();
    SpModel Am = gen_sp(c, m, n, mode);
    const SparseMatrix<T> A = build_csr<T>(r, Am, r.chance(1, 2));
    const Ref R = Am.dense();
    c.nontrivial = !Am.e.empty();
    c.mix(m); c.mix(n); for (auto& p : Am.e) { c.mix(p.first.first * 1000 + p.first.second); c.mixd(p.second); }
    c.describe("%dx%d nnz=%d", m, n, (int)Am.e.size());
    const char* key = "sparse-convert";
    same_sp(wellformed(A, m, n, "constructed"), Am, key, "constructed");
    STEP("ToDense"); same_values(ref_of(A.ToDense()), R, nullptr, 0, key, "ToDense()");
    { DenseMatrix D = stale(r, m, n); STEP("ToDense(out)"); A.ToDense(D); same_values(ref_of(D), R, nullptr, 0, key, "ToDense(out)"); }
    STEP("TransposeDense"); same_values(ref_of(A.TransposeDense()), transpose(R), nullptr, 0, key, "TransposeDense()");
    { DenseMatrix D = stale(r, n, m); STEP("TransposeDense(out)"); A.TransposeDense(D); same_values(ref_of(D), transpose(R), nullptr, 0, key, "TransposeDense(out)"); }
    STEP("Transpose");
    SparseMatrix<T> At = A.Transpose();
    SpModel Tm(n, m); for (auto& p : Am.e) Tm.e[std::make_pair(p.first.second, p.first.first)] = p.second;
    same_sp(wellformed(At, n, m, "transpose"), Tm, key, "transpose");
    CHECK(At.nnz() == A.nnz(), key, "transpose stores %d entries, the matrix %d", At.nnz(), A.nnz());
    STEP("Transpose twice");
    same_sp(wellformed(At.Transpose(), m, n, "double transpose"), Am, key, "double transpose");
    if (std::is_same<T, int>::value)
    {
        STEP("Transpose<double>");
        SparseMatrix<double> Td = A.template Transpose<double>();
        same_sp(wellformed(Td, n, m, "transpose<double>"), Tm, key, "transpose<double>");
    }
    STEP("row access");
    SparseMatrix<T> Mut(A);
    for (int i = 0; i < m; ++i)
    {
        std::vector<int> ri = A.GetIndices(i);
        std::vector<T> rd = A.GetData(i);
        const SparseMatrix<T>& cA = A;
        const VectorView<int>& vi = cA.GetIndicesView(i);
        const VectorView<int>& vm = Mut.GetIndicesView(i);
        CHECK((int)ri.size() == A.RowSize(i) && rd.size() == ri.size() && vi.size() == (int)ri.size() && vm.size() == (int)ri.size(), key, "row %d accessors disagree on its size", i);
        for (size_t q = 0; q < ri.size(); ++q)
        {
            CHECK(vi[q] == ri[q] && vm[q] == ri[q], key, "row %d view disagrees with the copy at %zu", i, q);
            CHECK(Am.e.count(std::make_pair(i, ri[q])) && near((double)rd[q], Am.get(i, ri[q]), 0, 1), key, "row %d holds (%d, %g)", i, ri[q], (double)rd[q]);
        }
    }
    if (m == n)
    {
        STEP("GetDiag");
        std::vector<double> d = A.GetDiag();
        CHECK((int)d.size() == n, key, "GetDiag size");
        for (int i = 0; i < n; ++i) CHECK(d[i] == R(i, i), key, "GetDiag entry %d is %g expected %g", i, d[i], R(i, i));
    }
    STEP("Sum/MaxNorm");
    long double s = 0, sa = 0; for (auto& p : Am.e) { s += p.second; sa += std::fabs(p.second); }
    CHECK(near((double)A.Sum(), (double)s, (double)sa, Am.e.size()), key, "Sum %.17g expected %.17g", (double)A.Sum(), (double)s);
    CHECK(near((double)A.MaxNorm(), (double)sa, (double)sa, Am.e.size()), key, "MaxNorm (sum of magnitudes) %.17g expected %.17g", (double)A.MaxNorm(), (double)sa);
    STEP("Print");
    {
        std::ostringstream os; A.Print("lab", os);
        std::string s2 = os.str();
        long rows = std::count(s2.begin(), s2.end(), '(');
        CHECK(rows == A.nnz(), key, "Print shows %ld of %d entries", rows, A.nnz());
        std::ostringstream os2; A.PrintDense("lab", os2);
    }
    // default / sized / diagonal constructors
    STEP("constructors");
    { SparseMatrix<T> E; wellformed(E, 0, 0, "default constructed"); }
    { SparseMatrix<T> E(m); wellformed(E, m, m, "square constructed"); CHECK(E.nnz() == 0, key, "empty square matrix has entries"); }
    { SparseMatrix<T> E(m, n); wellformed(E, m, n, "empty constructed"); CHECK(E.nnz() == 0, key, "empty matrix has entries"); }
    {
        std::vector<T> d = gen_vec<T>(r, m, mode);
        SparseMatrix<T> E(d);
        SpModel D(m, m); for (int i = 0; i < m; ++i) D.e[std::make_pair(i, i)] = d[i];
        same_sp(wellformed(E, m, m, "diagonal constructed"), D, key, "diagonal constructed");
    }
    same_sp(wellformed(A, m, n, "source"), Am, "operand-changed", "source");
}
FAMILY(conv_d, "sparse.convert.double") { convert<double>(c); }
FAMILY(conv_i, "sparse.convert.int") { convert<int>(c); }

// ---- histories of in-place edits against a map model
template <typename T>
void edits(Ctx& c)
{
    Rng& r = c.r;
    const bool isint = std::is_same<T, int>::value;
    int mode = isint ? 0 : r.range(0, 2);
    int m = c.size(1), n = r.chance(1, 2) ? m : c.size(1);
    SpModel M = gen_sp(c, m, n, mode);
    SparseMatrix<T> A = build_csr<T>(r, M, r.chance(1, 2));
    std::vector<int> marker; // shared across every extraction of this history
    marker.assign(std::max(m, n) + r.range(0, 5), -1);
    c.nontrivial = !M.e.empty();
    c.mix(m); c.mix(n); c.mix(M.e.size());
    c.describe("%dx%d nnz=%d ops:", m, n, (int)M.e.size());
    const char* key = "sparse-edit";
    const int nops = r.range(1, 9);
    double scale = 1;
    for (int o = 0; o < nops; ++o)
    {
        int op = r.range(0, 19);
        c.mix(op); c.describe(" %d", op);
        switch (op)
        {
            case 0:
            {
                T a = (T)(isint ? r.range(-2, 2) : gen_nz(r, mode));
                STEP("A*=a"); A *= a; for (auto& p : M.e) p.second *= a;
                break;
            }
            case 1:
            {
                T a = isint ? (T)(r.chance(1, 2) ? -1 : 1) : (T)gen_nz(r, mode);
                STEP("A/=a"); A /= a; for (auto& p : M.e) p.second /= a;
                break;
            }
            case 2:
            {
                T a = (T)r.range(1, 5);
                STEP("A=a"); A = a; for (auto& p : M.e) p.second = a;
                break;
            }
            case 3: case 4:
            {
                std::vector<T> s = gen_vec<T>(r, m, isint ? 0 : mode);
                if (op == 3) { STEP("ScaleRows"); A.ScaleRows(s); }
                else { STEP("ScaleRows(diag)"); A.ScaleRows(SparseMatrix<T>(s)); }
                for (auto& p : M.e) p.second *= s[p.first.first];
                break;
            }
            case 5: case 6:
            {
                std::vector<T> s = gen_vec<T>(r, n, isint ? 0 : mode);
                if (op == 5) { STEP("ScaleCols"); A.ScaleCols(s); }
                else { STEP("ScaleCols(diag)"); A.ScaleCols(SparseMatrix<T>(s)); }
                for (auto& p : M.e) p.second *= s[p.first.second];
                break;
            }
            case 7: case 8:
            {
                std::vector<T> s(op == 7 ? m : n);
                for (T& v : s) v = isint ? (T)(r.chance(1, 2) ? 1 : -1) : (T)gen_nz(r, mode);
                bool dg = r.chance(1, 2);
                if (op == 7) { STEP("InverseScaleRows"); if (dg) A.InverseScaleRows(SparseMatrix<T>(s)); else A.InverseScaleRows(s); for (auto& p : M.e) p.second /= s[p.first.first]; }
                else { STEP("InverseScaleCols"); if (dg) A.InverseScaleCols(SparseMatrix<T>(s)); else A.InverseScaleCols(s); for (auto& p : M.e) p.second /= s[p.first.second]; }
                break;
            }
            case 9:
            {
                std::vector<int> perm(n); for (int i = 0; i < n; ++i) perm[i] = i;
                r.shuffle(perm);
                STEP("PermuteCols"); A.PermuteCols(perm);
                SpModel N(m, n); for (auto& p : M.e) N.e[std::make_pair(p.first.first, perm[p.first.second])] = p.second;
                M = N;
                break;
            }
            case 10:
            {
                int i = r.range(0, m - 1);
                STEP("EliminateRow"); A.EliminateRow(i); for (auto& p : M.e) if (p.first.first == i) p.second = 0;
                break;
            }
            case 11:
            {
                int j = r.range(0, n - 1);
                STEP("EliminateCol"); A.EliminateCol(j); for (auto& p : M.e) if (p.first.second == j) p.second = 0;
                break;
            }
            case 12:
            {
                int i = r.range(0, std::min(m, n) - 1);
                STEP("EliminateRowCol"); A.EliminateRowCol(i);
                for (auto& p : M.e) if (p.first.first == i || p.first.second == i) p.second = p.first.first == p.first.second ? 1 : 0;
                break;
            }
            case 13:
            {
                std::vector<int> mk(std::max(m, n) + r.range(0, 3)); for (int& v : mk) v = r.chance(1, 4);
                if (m == n && r.chance(1, 2))
                {
                    STEP("EliminateRowCol(marker)"); A.EliminateRowCol(mk);
                    for (auto& p : M.e) if (mk[p.first.first] || mk[p.first.second]) p.second = p.first.first == p.first.second ? 1 : 0;
                }
                else if (r.chance(1, 2))
                {
                    STEP("EliminateCol(marker)"); A.EliminateCol(mk);
                    for (auto& p : M.e) if (mk[p.first.second]) p.second = 0;
                }
                else
                {
                    std::vector<double> x = gen_vec<double>(r, n, isint ? 0 : mode), b = gen_vec<double>(r, m, isint ? 0 : mode);
                    std::vector<double> wb = b, mg(m); for (int i = 0; i < m; ++i) mg[i] = std::fabs(b[i]);
                    for (auto& p : M.e) if (mk[p.first.second]) { double q = p.second * x[p.first.second]; wb[p.first.first] -= q; mg[p.first.first] += std::fabs(q); p.second = 0; }
                    STEP("EliminateCol(marker,x,b)"); Vector<double> bv(b);
                    A.EliminateCol(mk, Vector<double>(x), bv);
                    for (int i = 0; i < m; ++i) CHECK(near(bv[i], wb[i], mg[i], n), key, "EliminateCol right hand side entry %d is %.17g, expected %.17g", i, bv[i], wb[i]);
                }
                break;
            }
            case 14:
            {
                T tol = (T)(isint ? r.range(0, 3) : (r.chance(1, 3) ? 0.0 : r.uniform(0, 1)));
                if (!isint) for (auto& p : M.e) if (std::fabs(std::fabs(p.second) - (double)tol) < 1e-9 && p.second != 0) tol = 0;
                STEP("EliminateZeros");
                if (tol == 0 && r.chance(1, 2)) A.EliminateZeros(); else A.EliminateZeros(tol);
                SpModel N(m, n);
                for (auto& p : M.e) if (std::fabs(p.second) > (double)tol) N.e.insert(p);
                if (isint && tol > 0)
                {
                    // entries of exactly the tolerance may go either way ("less than"): accept both
                    SpModel G = wellformed(A, m, n, "EliminateZeros");
                    for (auto& p : M.e) if (std::fabs(p.second) == (double)tol && G.e.count(p.first)) N.e.insert(p);
                }
                M = N;
                break;
            }
            case 15:
            {
                STEP("SortIndices"); A.SortIndices();
                for (int i = 0; i < m; ++i)
                {
                    std::vector<int> ri = A.GetIndices(i);
                    CHECK(std::is_sorted(ri.begin(), ri.end()), key, "row %d is not sorted after SortIndices", i);
                }
                break;
            }
            case 16:
            {
                // diagonal updates reach exactly the stored diagonal entries
                if (m != n) break;
                if (r.chance(1, 2))
                {
                    std::vector<T> d = gen_vec<T>(r, m, isint ? 0 : mode);
                    STEP("AddDiag(vector)"); A.AddDiag(d); for (auto& p : M.e) if (p.first.first == p.first.second) p.second += d[p.first.first];
                }
                else
                {
                    T d = (T)gen_val(r, isint ? 0 : mode);
                    STEP("AddDiag(scalar)"); A.AddDiag(d); for (auto& p : M.e) if (p.first.first == p.first.second) p.second += d;
                }
                break;
            }
            case 17: case 18:
            {
                int a = r.range(0, m), b = r.range(0, n);
                std::vector<int> rows(m), cols(n);
                for (int i = 0; i < m; ++i) rows[i] = i;
                for (int i = 0; i < n; ++i) cols[i] = i;
                r.shuffle(rows); r.shuffle(cols);
                rows.resize(a); cols.resize(b);
                if (r.chance(1, 4)) for (int q = 0; q < 3 && a; ++q) rows.push_back(rows[r.range(0, a - 1)]); // repeated rows
                if (r.chance(1, 4)) { std::sort(rows.begin(), rows.end()); std::sort(cols.begin(), cols.end()); }
                SpModel S((int)rows.size(), (int)cols.size());
                for (size_t i = 0; i < rows.size(); ++i) for (size_t j = 0; j < cols.size(); ++j)
                {
                    auto it = M.e.find(std::make_pair(rows[i], cols[j]));
                    if (it != M.e.end()) S.e[std::make_pair((int)i, (int)j)] = it->second;
                }
                SparseMatrix<T> B;
                if (op == 17) { STEP("GetSubMatrix"); B = A.GetSubMatrix(rows, cols); }
                else { STEP("GetSubMatrix(marker)"); B = A.GetSubMatrix(rows, cols, marker); }
                same_sp(wellformed(B, S.m, S.n, "submatrix"), S, key, "submatrix");
                if (S.m && S.n && r.chance(1, 3)) { A = B; M = S; m = S.m; n = S.n; }
                break;
            }
            case 19:
            {
                T a = (T)(isint ? r.range(-2, 2) : gen_nz(r, mode));
                STEP("A*a, a*A"); SparseMatrix<T> B = r.chance(1, 2) ? A * a : a * A;
                SpModel N = M; for (auto& p : N.e) p.second *= a;
                same_sp(wellformed(B, m, n, "scaled copy"), N, key, "scaled copy");
                break;
            }
        }
        SpModel G = wellformed(A, m, n, "after edit");
        same_sp(G, M, key, current_step());
        scale = 0; for (auto& p : M.e) scale = std::max(scale, std::fabs(p.second));
        // keep the model exactly representable / free of accumulated rounding: adopt the values read back
        M.e = G.e;
        if (isint && scale > 1e5) break;
        if (scale > 1e12) break;
    }
}
FAMILY(edits_d, "sparse.edits.double") { edits<double>(c); }
FAMILY(edits_i, "sparse.edits.int") { edits<int>(c); }

} // namespace
