// One object in several roles of one call: the same vector, matrix, index list or offset list given
// for two operands, a scalar read out of the object being changed, an object assigned from a result
// computed from itself, and operands that are windows of one buffer. The result must be the one that
// separate copies give. (C03, C05, C07, C08, C09, C10, C14)
#include "sp.hpp"
using namespace linalgcpp;
using namespace vh;

namespace
{
typedef std::vector<double> Dv;
template <typename T> Dv dbl(const VectorView<T>& v) { return Dv(v.begin(), v.end()); }
void cmp(const Dv& got, const Dv& want, const Dv& mag, double k, const char* key, const char* what)
{
    CHECK(got.size() == want.size(), key, "%s: size %zu expected %zu", what, got.size(), want.size());
    for (size_t i = 0; i < want.size(); ++i)
        CHECK(near(got[i], want[i], mag[i], k), key, "%s: entry %zu is %.17g, expected %.17g", what, i, got[i], want[i]);
}

// ------------------------------------------------------------------ vectors
template <typename T>
void vectors(Ctx& c)
{
    Rng& r = c.r;
    const bool isint = std::is_same<T, int>::value;
    const int n = c.size(1), mode = isint ? 0 : r.range(0, 2);
    std::vector<T> xv(n);
    for (T& v : xv) v = (T)gen_nz(r, mode);
    if (isint && r.chance(1, 2)) xv[r.range(0, n - 1)] = 1;
    const int op = r.range(0, 24);
    c.nontrivial = n > 1; c.mix(n); c.mix(op); for (T v : xv) c.mixd((double)v);
    c.describe("n=%d op=%d int=%d", n, op, (int)isint);
    const char* key = "same-vector";
    Vector<T> x(xv);
    Dv w(xv.begin(), xv.end()), mag(n);
    for (int i = 0; i < n; ++i) mag[i] = std::fabs(w[i]);
    const int k = r.range(0, n - 1);
    const double a = isint ? r.range(-3, 3) : gen_val(r, mode), b = isint ? r.range(-3, 3) : gen_val(r, mode), g = isint ? r.range(-3, 3) : gen_val(r, mode);
    const T s = xv[k];
    VectorView<T> v(x);
    auto each = [&](const std::function<double(double)>& f, double grow) { for (int i = 0; i < n; ++i) { w[i] = f(w[i]); mag[i] = mag[i] * (1 + grow) + std::fabs(w[i]); } };
    switch (op)
    {
        case 0: STEP("x+=x"); x += x; each([](double t) { return t + t; }, 1); break;
        case 1: STEP("x-=x"); x -= x; each([](double) { return 0.0; }, 1); break;
        case 2: STEP("x*=x"); x *= x; each([](double t) { return t * t; }, 0); break;
        case 3: STEP("x/=x"); x /= x; each([](double) { return 1.0; }, 0); break;
        case 4: STEP("x.Add(x)"); x.Add(x); each([](double t) { return t + t; }, 1); break;
        case 5: STEP("x.Sub(x)"); x.Sub(x); each([](double) { return 0.0; }, 1); break;
        case 6: STEP("x.Add(a,x)"); x.Add(a, x); each([&](double t) { return t + a * t; }, std::fabs(a) + 1); break;
        case 7: STEP("x.Sub(a,x)"); x.Sub(a, x); each([&](double t) { return t - a * t; }, std::fabs(a) + 1); break;
        case 8: STEP("x.Set(a,x)"); x.Set(a, x); each([&](double t) { return a * t; }, 0); break;
        case 9: STEP("x.Set(x)"); x.Set(x); break;
        case 10: STEP("Add(a,x,b,x,g,x)"); linalgcpp::Add((T)a, v, (T)b, v, (T)g, v); each([&](double t) { return a * t + b * t + g * t; }, std::fabs(a) + std::fabs(b) + std::fabs(g)); break;
        case 11: STEP("Add(x,x,x)"); linalgcpp::Add(v, v, v); each([](double t) { return t + t; }, 1); break;
        case 12: STEP("Sub(x,x,x)"); linalgcpp::Sub(v, v, v); each([](double) { return 0.0; }, 1); break;
        case 13: STEP("x*=x[k]"); x *= x[k]; each([&](double t) { return t * s; }, 0); break;
        case 14: if (!isint || s == 1 || s == -1) { STEP("x/=x[k]"); x /= x[k]; each([&](double t) { return t / s; }, 0); } break;
        case 15: STEP("x+=x[k]"); x += x[k]; for (int i = 0; i < n; ++i) { w[i] += s; mag[i] += std::fabs((double)s); } break;
        case 16: STEP("x-=x[k]"); x -= x[k]; for (int i = 0; i < n; ++i) { w[i] -= s; mag[i] += std::fabs((double)s); } break;
        case 17: STEP("x=x[k]"); x = x[k]; each([&](double) { return (double)s; }, 0); break;
        case 18: STEP("view*=x[k]"); v *= v[k]; each([&](double t) { return t * s; }, 0); break;
        case 19: STEP("view=x[k]"); v = v[k]; each([&](double) { return (double)s; }, 0); break;
        case 20:
        {
            STEP("x = x op x"); int q = r.range(0, 3);
            if (q == 0) { x = x + x; each([](double t) { return t + t; }, 1); }
            if (q == 1) { x = x - x; each([](double) { return 0.0; }, 1); }
            if (q == 2) { x = x * x[k]; each([&](double t) { return t * s; }, 0); }
            if (q == 3) { x = x[k] * x; each([&](double t) { return t * s; }, 0); }
            break;
        }
        case 21:
        {
            STEP("reductions of x with x");
            long double d = 0; for (double t : w) d += (long double)t * t;
            CHECK(near((double)(x * x), (double)d, (double)d, n), key, "x*x is %.17g, expected %.17g", (double)(x * x), (double)d);
            CHECK(near((double)x.Mult(x), (double)d, (double)d, n), key, "x.Mult(x)");
            CHECK(near((double)linalgcpp::InnerProduct(v, v), (double)d, (double)d, n), key, "InnerProduct(x,x)");
            CHECK(x == x && v == v && x == v, key, "a vector differs from itself");
            break;
        }
        case 22:
        {
            // two halves of one buffer as separate operands
            const int h = n / 2;
            VectorView<T> lo(x.begin(), h), hi(x.begin() + h, h);
            STEP("half += other half"); lo += hi;
            for (int i = 0; i < h; ++i) { w[i] += w[h + i]; mag[i] += mag[h + i]; }
            VectorView<T> all(x.begin(), n);
            hi.Add(-1.0, lo);
            for (int i = 0; i < h; ++i) { w[h + i] -= w[i]; mag[h + i] += mag[i]; }
            break;
        }
        case 23:
        {
            STEP("x = gather of x"); std::vector<int> ix(n); for (int& i : ix) i = r.range(0, n - 1);
            x = x.GetSubVector(ix);
            Dv o = w, om = mag; for (int i = 0; i < n; ++i) { w[i] = o[ix[i]]; mag[i] = om[ix[i]]; }
            break;
        }
        case 24:
        {
            STEP("SetSize(n, x[k])"); x.SetSize(n + 3, x[k]);
            for (int i = 0; i < 3; ++i) { w.push_back(s); mag.push_back(std::fabs((double)s)); }
            break;
        }
    }
    cmp(dbl<T>(x), w, mag, 8, key, current_step());
}

// -------------------------------------------------------------------- dense
FAMILY(same_dense, "same.dense")
{
    Rng& r = c.r;
    const int mode = r.range(0, 2), m = c.size(1), n = r.chance(1, 2) ? m : c.size(1);
    Ref R = gen_ref(r, m, n, mode), G;
    DenseMatrix A = dense_of(R);
    const int op = r.range(0, 15);
    c.nontrivial = m > 1 && n > 1; c.mix(m); c.mix(n); c.mix(op); for (double v : R.a) c.mixd(v);
    c.describe("%dx%d op=%d", m, n, op);
    const char* key = "same-dense";
    const Ref Rt = transpose(R);
    Ref want = R, bnd = R; for (double& v : bnd.a) v = std::fabs(v);
    const int i0 = r.range(0, m - 1), j0 = r.range(0, n - 1);
    const double s = R(i0, j0);
    DenseMatrix out = stale(r, r.range(0, 5), r.range(0, 5));
    switch (op)
    {
        case 0: STEP("A+=A"); A += A; for (double& v : want.a) v += v; for (double& v : bnd.a) v *= 2; break;
        case 1: STEP("A-=A"); A -= A; for (double& v : want.a) v = 0; break;
        case 2: STEP("A=A+A"); A = A + A; for (double& v : want.a) v += v; for (double& v : bnd.a) v *= 2; break;
        case 3: STEP("A=A-A"); A = A - A; for (double& v : want.a) v = 0; break;
        case 4: CHECK(A == A, key, "a matrix differs from itself"); break;
        case 5: if (m == n) { STEP("A.Mult(A)"); want = multiply(R, R, &bnd); A.Mult(A, out); same_values(ref_of(out), want, &bnd, n, key, "A.Mult(A,out)"); same_values(ref_of(A), R, nullptr, 0, "operand-changed", "A"); A = A.Mult(A); } break;
        case 6: { STEP("A.MultAT(A)"); want = multiply(Rt, R, &bnd); A.MultAT(A, out); same_values(ref_of(out), want, &bnd, m, key, "A.MultAT(A,out)"); same_values(ref_of(A), R, nullptr, 0, "operand-changed", "A"); A = A.MultAT(A); break; }
        case 7: { STEP("A.MultBT(A)"); want = multiply(R, Rt, &bnd); A.MultBT(A, out); same_values(ref_of(out), want, &bnd, n, key, "A.MultBT(A,out)"); same_values(ref_of(A), R, nullptr, 0, "operand-changed", "A"); A = A.MultBT(A); break; }
        case 8: if (m == n) { STEP("A.MultABT(A)"); want = multiply(Rt, Rt, &bnd); A.MultABT(A, out); same_values(ref_of(out), want, &bnd, n, key, "A.MultABT(A,out)"); same_values(ref_of(A), R, nullptr, 0, "operand-changed", "A"); A = A.MultABT(A); } break;
        case 9: STEP("A=A^T"); A = A.Transpose(); want = Rt; bnd = transpose(bnd); break;
        case 10: STEP("A*=A(i,j)"); A *= A(i0, j0); for (size_t q = 0; q < want.a.size(); ++q) { want.a[q] *= s; bnd.a[q] = std::fabs(want.a[q]); } break;
        case 11: if (s != 0) { STEP("A/=A(i,j)"); A /= A(i0, j0); for (size_t q = 0; q < want.a.size(); ++q) { want.a[q] /= s; bnd.a[q] = std::fabs(want.a[q]); } } break;
        case 12: STEP("A=A(i,j)"); A = A(i0, j0); for (double& v : want.a) v = s; for (double& v : bnd.a) v = std::fabs(s); break;
        case 13:
        {
            // columns of one matrix as operands of each other and of another product
            const int j1 = r.range(0, n - 1);
            STEP("column = column");
            if (r.chance(1, 2)) { A.SetCol(j0, A.GetColView(j1)); } else { VectorView<double> q = A.GetColView(j0); q = A.GetColView(j1); }
            for (int i = 0; i < m; ++i) { want(i, j0) = want(i, j1); bnd(i, j0) = bnd(i, j1); }
            if (j0 != j1)
            {
                STEP("column -= a * other column");
                VectorView<double> q = A.GetColView(j0); const double a = gen_val(r, mode);
                q.Sub(a, A.GetColView(j1));
                for (int i = 0; i < m; ++i) { want(i, j0) -= a * want(i, j1); bnd(i, j0) += std::fabs(a) * bnd(i, j1); }
            }
            break;
        }
        case 14:
        {
            // B maps one column of A to another column of A
            const int j1 = r.range(0, n - 1);
            if (j1 == j0) break;
            Ref Bm = gen_ref(r, m, m, mode); const DenseMatrix B = dense_of(Bm);
            Dv x(m), g; for (int i = 0; i < m; ++i) x[i] = R(i, j0);
            bool tr = r.chance(1, 2);
            STEP("product from column to column");
            if (tr) B.MultAT(A.GetColView(j0), A.GetColView(j1)); else B.Mult(A.GetColView(j0), A.GetColView(j1));
            Dv y = matvec(tr ? transpose(Bm) : Bm, x, &g);
            for (int i = 0; i < m; ++i) { want(i, j1) = y[i]; bnd(i, j1) = g[i]; }
            break;
        }
        case 15:
        {
            // one index list for rows and columns
            const int k = std::min(m, n);
            std::vector<int> I; for (int i = 0; i < k; ++i) if (r.chance(2, 3)) I.push_back(i);
            r.shuffle(I);
            STEP("GetSubMatrix(I,I)");
            DenseMatrix S = A.GetSubMatrix(I, I);
            CHECK(S.Rows() == (int)I.size() && S.Cols() == (int)I.size(), key, "GetSubMatrix(I,I) shape");
            for (size_t i = 0; i < I.size(); ++i) for (size_t j = 0; j < I.size(); ++j) CHECK(S(i, j) == R(I[i], I[j]), key, "GetSubMatrix(I,I) entry");
            STEP("AddSubMatrix(I,I)"); A.AddSubMatrix(I, I, S);
            for (int i : I) for (int j : I) { want(i, j) += R(i, j); bnd(i, j) *= 2; }
            STEP("A=GetSubMatrix of A"); if (r.chance(1, 2)) { A = A.GetSubMatrix(I, I); Ref w2((int)I.size(), (int)I.size()), b2 = w2; for (int i = 0; i < w2.m; ++i) for (int j = 0; j < w2.n; ++j) { w2(i, j) = want(I[i], I[j]); b2(i, j) = bnd(I[i], I[j]); } want = w2; bnd = b2; }
            break;
        }
    }
    same_values(ref_of(A), want, &bnd, n + m, key, current_step());
}

FAMILY(same_stack, "same.stack")
{
    Rng& r = c.r;
    const int m = c.size(), n = c.size();
    Ref R = gen_ref(r, m, n, 2);
    DenseMatrix A = dense_of(R);
    c.nontrivial = m > 0 && n > 0; c.mix(m); c.mix(n); for (double v : R.a) c.mixd(v);
    c.describe("%dx%d", m, n);
    const int k = r.range(1, 4);
    std::vector<DenseMatrix> parts(k, A);
    STEP("HStack of copies"); DenseMatrix S = HStack(parts);
    CHECK(S.Rows() == m && S.Cols() == k * n, "same-dense", "HStack of %d copies is %dx%d", k, S.Rows(), S.Cols());
    for (int q = 0; q < k; ++q) for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) CHECK(S(i, q * n + j) == R(i, j), "same-dense", "HStack of copies entry (%d,%d)", i, q * n + j);
    STEP("A = HStack of A"); A = HStack(std::vector<DenseMatrix>(2, A));
    CHECK(A.Rows() == m && A.Cols() == 2 * n, "same-dense", "A = HStack({A,A}) is %dx%d", A.Rows(), A.Cols());
    // a matrix's own factorisation and inverse into itself
    if (m > 0 && n > 0)
    {
        DenseMatrix Q1 = dense_of(R), Q2;
        STEP("QR in place and out of place");
        dense_of(R).QR(Q2); Q1.QR();
        CHECK(Q1.Rows() == Q2.Rows() && Q1.Cols() == Q2.Cols(), "same-dense", "QR() and QR(Q) differ in shape");
        for (int i = 0; i < Q1.Rows(); ++i) for (int j = 0; j < Q1.Cols(); ++j) CHECK(std::fabs(Q1(i, j) - Q2(i, j)) <= 1e-9 || (Q1(i, j) != Q1(i, j)) == (Q2(i, j) != Q2(i, j)), "same-dense", "QR() and QR(Q) differ");
    }
}

// ------------------------------------------------------------------- sparse
template <typename T>
void sparses(Ctx& c)
{
    Rng& r = c.r;
    const bool isint = std::is_same<T, int>::value;
    const int mode = isint ? 0 : r.range(0, 2), n = c.size(1);
    SpModel M = gen_sp(c, n, n, mode);
    SparseMatrix<T> A = build_csr<T>(r, M, r.chance(1, 2));
    const Ref R = M.dense();
    Ref want = R, bnd = R; for (double& v : bnd.a) v = std::fabs(v);
    const int op = r.range(0, 14);
    c.nontrivial = !M.e.empty() && n > 1; c.mix(n); c.mix(op); for (auto& p : M.e) { c.mix(p.first.first * 1000 + p.first.second); c.mixd(p.second); }
    c.describe("%dx%d nnz=%d op=%d", n, n, (int)M.e.size(), op);
    const char* key = "same-sparse";
    switch (op)
    {
        case 0: { STEP("A=A.Mult(A)"); want = multiply(R, R, &bnd); A = A.Mult(A); break; }
        case 1:
        {
            STEP("A.Mult(A,marker)"); std::vector<int> mk; Ref w2 = multiply(R, R, &bnd);
            SparseMatrix<T> B = A.Mult(A, mk); same_values(wellformed(B, n, n, "A*A").dense(), w2, &bnd, n, key, "A*A with workspace");
            SparseMatrix<T> C = B.Mult(A, mk); Ref b2, w3 = multiply(w2, R, &b2);
            Ref abR = R, abW = bnd; for (double& v : abR.a) v = std::fabs(v); b2 = multiply(abW, abR);
            same_values(wellformed(C, n, n, "A*A*A").dense(), w3, &b2, 4 * n, key, "A*A*A with the same workspace");
            bnd = R; for (double& v : bnd.a) v = std::fabs(v);
            break;
        }
        case 2: STEP("A=A^T"); A = A.Transpose(); want = transpose(R); bnd = transpose(bnd); break;
        case 3: { STEP("A=A^T A"); want = multiply(transpose(R), R, &bnd); A = A.Transpose().Mult(A); break; }
        case 4: case 5:
        {
            std::vector<int> I; for (int i = 0; i < n; ++i) if (r.chance(2, 3)) I.push_back(i);
            r.shuffle(I);
            std::vector<int> mk(n, -1);
            STEP("GetSubMatrix(I,I)"); SparseMatrix<T> B = op == 4 ? A.GetSubMatrix(I, I) : A.GetSubMatrix(I, I, mk);
            Ref w2((int)I.size(), (int)I.size()); for (int i = 0; i < w2.m; ++i) for (int j = 0; j < w2.n; ++j) w2(i, j) = R(I[i], I[j]);
            same_values(wellformed(B, w2.m, w2.n, "A(I,I)").dense(), w2, nullptr, 1, key, "A(I,I)");
            if (r.chance(1, 2)) { A = op == 4 ? A.GetSubMatrix(I, I) : A.GetSubMatrix(I, I, mk); want = bnd = w2; }
            break;
        }
        case 6: { STEP("A=A*A^T"); want = multiply(R, transpose(R), &bnd); A = A.Mult(A.Transpose()); break; }
        case 7:
        {
            std::vector<T> d = gen_vec<T>(r, n, mode);
            STEP("scaled by one list on both sides"); A.ScaleRows(d); A.ScaleCols(d);
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { want(i, j) = want(i, j) * d[i] * d[j]; bnd(i, j) = std::fabs(want(i, j)); }
            SparseMatrix<T> D(d); SparseMatrix<T> A2 = build_csr<T>(r, M, false); A2.ScaleRows(D); A2.ScaleCols(D);
            same_values(wellformed(A2, n, n, "D A D").dense(), want, &bnd, 4, key, "D A D by one diagonal matrix");
            break;
        }
        case 8:
        {
            std::vector<T> d(n); for (T& v : d) v = isint ? (T)(r.chance(1, 2) ? 1 : -1) : (T)gen_nz(r, mode);
            SparseMatrix<T> D(d);
            STEP("a diagonal matrix scaled by itself"); SparseMatrix<T> E(D); E.ScaleRows(E);
            Ref w2(n, n); for (int i = 0; i < n; ++i) w2(i, i) = (double)d[i] * d[i];
            same_values(wellformed(E, n, n, "D.ScaleRows(D)").dense(), w2, nullptr, 4, key, "D.ScaleRows(D)");
            SparseMatrix<T> F(D); F.ScaleCols(F); same_values(wellformed(F, n, n, "D.ScaleCols(D)").dense(), w2, nullptr, 4, key, "D.ScaleCols(D)");
            for (int i = 0; i < n; ++i) w2(i, i) = 1;
            SparseMatrix<T> H(D); H.InverseScaleRows(H); same_values(wellformed(H, n, n, "D.InverseScaleRows(D)").dense(), w2, nullptr, 4, key, "D.InverseScaleRows(D)");
            SparseMatrix<T> K(D); K.InverseScaleCols(K); same_values(wellformed(K, n, n, "D.InverseScaleCols(D)").dense(), w2, nullptr, 4, key, "D.InverseScaleCols(D)");
            break;
        }
        case 9:
        {
            // x^T A x, and A applied from one half of a buffer to the other
            Dv x = gen_vec<double>(r, n, mode), g, y = matvec(R, x, &g);
            long double d = 0, da = 0; for (int i = 0; i < n; ++i) { d += (long double)x[i] * y[i]; da += std::fabs(x[i]) * g[i]; }
            Vector<double> xx(x); const Operator& O = A;
            STEP("InnerProduct(x,x)"); double got = O.InnerProduct(xx, xx);
            CHECK(near(got, (double)d, (double)da, 2 * n), key, "x^T A x is %.17g, expected %.17g", got, (double)d);
            Dv buf(2 * n, 3.0); std::copy(x.begin(), x.end(), buf.begin());
            STEP("product inside one buffer"); O.Mult(VectorView<double>(buf.data(), n), VectorView<double>(buf.data() + n, n));
            cmp(Dv(buf.begin() + n, buf.end()), y, g, n, key, "product inside one buffer");
            CHECK(std::equal(x.begin(), x.end(), buf.begin()), "operand-changed", "the input half changed");
            break;
        }
        case 10:
        {
            std::vector<int> mk(n); for (int& v : mk) v = r.chance(1, 3);
            STEP("EliminateRowCol(marker) twice"); A.EliminateRowCol(mk); A.EliminateRowCol(mk);
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (mk[i] || mk[j]) { bool st = M.e.count(std::make_pair(i, j)); want(i, j) = i == j && st ? 1 : 0; bnd(i, j) = 1; }
            break;
        }
        case 11:
        {
            STEP("entries of A back into A"); // the arrays handed out by const access build an equal matrix
            const SparseMatrix<T>& CA = A;
            A = SparseMatrix<T>(CA.GetIndptr(), CA.GetIndices(), CA.GetData(), CA.Rows(), CA.Cols());
            break;
        }
        case 12:
        {
            STEP("A*=A(k)"); if (A.nnz()) { const int q = r.range(0, A.nnz() - 1); const T f = A.GetData()[q]; A *= A.GetData()[q]; for (size_t i = 0; i < want.a.size(); ++i) { want.a[i] *= f; bnd.a[i] = std::fabs(want.a[i]); } }
            break;
        }
        case 13:
        {
            STEP("A=A(k)"); if (A.nnz()) { const int q = r.range(0, A.nnz() - 1); const T f = A.GetData()[q]; if (f == (T)0) break; A = A.GetData()[q]; for (auto& p : M.e) { want(p.first.first, p.first.second) = f; bnd(p.first.first, p.first.second) = std::fabs((double)f); } }
            break;
        }
        case 14:
        {
            STEP("PermuteCols there and back"); std::vector<int> p(n), q(n); for (int i = 0; i < n; ++i) p[i] = i; r.shuffle(p); for (int i = 0; i < n; ++i) q[p[i]] = i;
            A.PermuteCols(p); A.PermuteCols(q);
            break;
        }
    }
    same_values(wellformed(A, want.m, want.n, current_step()).dense(), want, &bnd, n, key, current_step());
}

// ----------------------------------------------------------------- assembly
template <typename Mat, typename T>
void assemblies(Ctx& c, bool coo)
{
    Rng& r = c.r;
    const int n = c.size(1);
    Ref R(n, n);
    Mat A(n, n);
    c.nontrivial = n > 1; c.mix(n); c.describe("n=%d:", n);
    const char* key = "same-assembly";
    for (int q = r.range(1, 5); q > 0; --q)
    {
        std::vector<int> I; for (int t = r.range(0, 4); t > 0; --t) I.push_back(r.range(0, n - 1));
        const int k = (int)I.size();
        Ref D = gen_ref(r, k, k, 0); const DenseMatrix B = dense_of(D);
        const bool two = r.chance(1, 2); const std::vector<int> copy(I);
        c.mix(k); c.mix(two); c.describe(" %d%s", k, two ? "+" : "");
        if (two) { STEP("Add(I,I,D)"); A.Add(I, I, B); } else { STEP("Add(I,D)"); A.Add(I, B); }
        CHECK(I == copy, "operand-changed", "the index list changed");
        for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) R(I[i], I[j]) += D(i, j);
    }
    (void)coo;
    STEP("ToSparse"); same_values(wellformed(A.template ToSparse<T>(), n, n, "assembled").dense(), R, nullptr, 1, key, "blocks over one list");
    STEP("ToDense"); same_values(ref_of(A.ToDense()), R, nullptr, 1, key, "blocks over one list, dense");
    Mat B(A); B = A; A = B;
    STEP("assigned from its own copy"); same_values(ref_of(A.ToDense()), R, nullptr, 1, key, "assigned from its own copy");
    STEP("A = A"); Mat& self = A; A = self; same_values(ref_of(A.ToDense()), R, nullptr, 1, key, "assigned to itself");
}
template <typename T>
void coo_more(Ctx& c)
{
    Rng& r = c.r;
    assemblies<CooMatrix<T>, T>(c, true);
    const int n = c.size(1);
    Ref R(n, n); CooMatrix<T> A(n, n);
    for (int q = r.range(0, 8); q > 0; --q) { int i = r.range(0, n - 1), j = r.range(0, n - 1); T v = (T)r.range(-5, 5); A.Add(i, j, v); R(i, j) += v; }
    std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; r.shuffle(p);
    STEP("PermuteRowsCols(p,p)"); A.PermuteRowsCols(p, p);
    Ref W(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) W(p[i], p[j]) = R(i, j);
    same_values(ref_of(A.ToDense()), W, nullptr, 1, "same-assembly", "PermuteRowsCols(p,p)");
    std::vector<int> I; for (int t = r.range(0, 4); t > 0; --t) I.push_back(r.range(0, n - 1));
    Ref D = gen_ref(r, (int)I.size(), (int)I.size(), 0); T s = (T)r.range(-2, 2);
    STEP("Add(I,I,scale,D)"); if (r.chance(1, 2)) A.Add(I, I, s, dense_of(D)); else A.Add(I, s, dense_of(D));
    for (size_t i = 0; i < I.size(); ++i) for (size_t j = 0; j < I.size(); ++j) W(I[i], I[j]) += s * D(i, j);
    same_values(ref_of(A.ToDense()), W, nullptr, 1, "same-assembly", "Add(I,I,scale,D)");
}

// ------------------------------------------------------------------- blocks
FAMILY(same_block, "same.block")
{
    Rng& r = c.r;
    const int nb = r.range(1, 4), n = c.size(1) > 12 ? 6 : r.range(1, 7);
    std::vector<int> off(1, 0); for (int b = 0; b < nb; ++b) off.push_back(off.back() + n);
    SpModel M = gen_sp(c, n, n, 1); SparseMatrix<double> S = build_csr<double>(r, M, r.chance(1, 2));
    const Ref R = M.dense();
    const int N = nb * n;
    Ref W(N, N);
    c.nontrivial = nb > 1; c.mix(nb); c.mix(n); for (auto& p : M.e) c.mixd(p.second);
    c.describe("%d blocks of %d, one matrix in several places", nb, n);
    BlockMatrix<double> BM(off, off);
    BlockOperator BO(off, off);
    for (int i = 0; i < nb; ++i) for (int j = 0; j < nb; ++j) if (r.chance(1, 2))
    {
        STEP("SetBlock of one matrix in several places"); BM.SetBlock(i, j, S); BO.SetBlock(i, j, S);
        c.mix(i * 10 + j);
        for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) W(i * n + a, j * n + b) = R(a, b);
    }
    const char* key = "same-block";
    Dv buf(2 * N); for (double& v : buf) v = gen_val(r, 1);
    for (int tr = 0; tr < 2; ++tr)
        for (int kind = 0; kind < 2; ++kind)
        {
            const Operator& O = kind ? static_cast<const Operator&>(BO) : BM;
            Dv x(buf.begin(), buf.begin() + N), g, want = matvec(tr ? transpose(W) : W, x, &g);
            VectorView<double> in(buf.data(), N), out(buf.data() + N, N);
            STEP(tr ? "MultAT inside one buffer" : "Mult inside one buffer");
            if (tr) O.MultAT(in, out); else O.Mult(in, out);
            cmp(Dv(buf.begin() + N, buf.end()), want, g, N, key, kind ? "operator" : "matrix");
            CHECK(std::equal(x.begin(), x.end(), buf.begin()), "operand-changed", "the input half changed");
        }
    STEP("Combine"); same_values(wellformed(BM.Combine(), N, N, "combined").dense(), W, nullptr, 1, key, "combined");
    STEP("block set from its own block");
    int i = r.range(0, nb - 1), j = r.range(0, nb - 1), k = r.range(0, nb - 1), l = r.range(0, nb - 1);
    if (BM.GetBlock(k, l).Rows() != n) { k = i; l = j; if (BM.GetBlock(k, l).Rows() != n) return; } // only blocks that were set
    BM.SetBlock(i, j, BM.GetBlock(k, l));
    Ref W2 = W; for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) W2(i * n + a, j * n + b) = W(k * n + a, l * n + b);
    same_values(wellformed(BM.Combine(), N, N, "combined").dense(), W2, nullptr, 1, key, "a block copied to another block");
    BM = BM.Transpose();
    same_values(wellformed(BM.Combine(), N, N, "combined").dense(), transpose(W2), nullptr, 1, key, "assigned from its own transpose");
}
}
FAMILY(same_vd, "same.vector.double") { vectors<double>(c); }
FAMILY(same_vi, "same.vector.int") { vectors<int>(c); }
FAMILY(same_sd, "same.sparse.double") { sparses<double>(c); }
FAMILY(same_si, "same.sparse.int") { sparses<int>(c); }
FAMILY(same_cd, "same.coo.double") { coo_more<double>(c); }
FAMILY(same_ci, "same.coo.int") { coo_more<int>(c); }
FAMILY(same_ld, "same.lil.double") { assemblies<LilMatrix<double>, double>(c, false); }
FAMILY(same_li, "same.lil.int") { assemblies<LilMatrix<int>, int>(c, false); }
