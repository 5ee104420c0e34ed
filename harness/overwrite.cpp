// Results overwrite their target and depend only on the current inputs (C13).
// Every call with an output argument is run into targets prepared in different
// ways; the monitor compares the results bit by bit, checks that nothing beside
// the target changed, and that inputs and operators kept every bit.
#include "sp.hpp"
#include "sparsesolve.hpp"
#include "partition.hpp"
using namespace linalgcpp;
using namespace vh;

namespace
{
typedef std::vector<uint64_t> Bits;
void put(Bits& b, double v) { uint64_t u; std::memcpy(&u, &v, 8); b.push_back(u); }
void put(Bits& b, int v) { b.push_back((uint64_t)(int64_t)v); }
template <typename V> void put_all(Bits& b, const V& v) { put(b, (int)v.size()); for (int i = 0; i < (int)v.size(); ++i) put(b, v[i]); }
Bits bits(const DenseMatrix& D)
{
    Bits b; put(b, D.Rows()); put(b, D.Cols());
    const double* p = D.GetData();
    for (long k = 0; k < (long)D.Rows() * D.Cols(); ++k) put(b, p[k]);
    return b;
}
template <typename T> Bits bits(const SparseMatrix<T>& S)
{
    Bits b; put(b, S.Rows()); put(b, S.Cols());
    put_all(b, S.GetIndptr()); put_all(b, S.GetIndices()); put_all(b, S.GetData());
    return b;
}
template <typename T> Bits bits(const VectorView<T>& v) { Bits b; put_all(b, v); return b; }
template <typename T> Bits bits(const std::vector<T>& v) { Bits b; put_all(b, v); return b; }
template <typename T> Bits bits(const CooMatrix<T>& M)
{
    Bits b; put(b, M.Rows()); put(b, M.Cols());
    std::ostringstream o; o.precision(17); M.Print("", o); std::string s = o.str();
    for (char ch : s) b.push_back((uint64_t)ch);
    return b;
}
template <typename T> Bits bits(const LilMatrix<T>& M)
{
    Bits b; put(b, M.Rows()); put(b, M.Cols());
    std::ostringstream o; o.precision(17); M.Print("", o); std::string s = o.str();
    for (char ch : s) b.push_back((uint64_t)ch);
    return b;
}
template <typename T> Bits bits(const BlockMatrix<T>& M)
{
    Bits b; put_all(b, M.GetRowOffsets()); put_all(b, M.GetColOffsets());
    for (int i = 0; i + 1 < (int)M.GetRowOffsets().size(); ++i)
        for (int j = 0; j + 1 < (int)M.GetColOffsets().size(); ++j) { Bits q = bits(M.GetBlock(i, j)); b.insert(b.end(), q.begin(), q.end()); }
    return b;
}
void same(const Bits& got, const Bits& want, const char* key, const char* what)
{
    count("monitor: bitwise comparison");
    CHECK(got.size() == want.size(), key, "%s: %zu words, expected %zu", what, got.size(), want.size());
    for (size_t i = 0; i < got.size(); ++i)
    {
        double a, b; std::memcpy(&a, &got[i], 8); std::memcpy(&b, &want[i], 8);
        CHECK(got[i] == want[i], key, "%s: word %zu differs: %016llx (%.17g) against %016llx (%.17g)", what, i, (unsigned long long)got[i], a, (unsigned long long)want[i], b);
    }
}
double junk(Rng& r)
{
    switch (r.range(0, 5))
    {
        case 0: return std::numeric_limits<double>::quiet_NaN();
        case 1: return std::numeric_limits<double>::infinity();
        case 2: return -1e308;
        case 3: return r.uniform(-100, 100);
        case 4: return -0.0;
        default: return 1.0;
    }
}
std::vector<double> junk_vec(Rng& r, int n)
{
    std::vector<double> v(n);
    bool mixed = r.chance(1, 2); double j = junk(r);
    for (double& x : v) x = mixed ? junk(r) : j;
    return v;
}
const double GUARD = 4.25e77;

// ---- a call that fills a vector view of length n
void into_view(Ctx& c, int n, const char* what, const std::function<void(VectorView<double>)>& call, const std::function<Bits()>& inputs)
{
    Rng& r = c.r;
    STEP(what); count("form: output view");
    const Bits in0 = inputs();
    std::vector<double> z(n, 0.0);
    call(VectorView<double>(z.data(), n));
    const Bits want = bits(z);
    same(inputs(), in0, "input-changed", what);
    for (int k = 0; k < 3; ++k)
    {
        // the target is the middle of a larger buffer
        int lo = r.range(0, 3), hi = r.range(0, 3);
        std::vector<double> store(n + lo + hi, GUARD), jk = junk_vec(r, n);
        std::copy(jk.begin(), jk.end(), store.begin() + lo);
        call(VectorView<double>(store.data() + lo, n));
        std::vector<double> got(store.begin() + lo, store.begin() + lo + n);
        same(bits(got), want, "output-stale", what);
        for (int i = 0; i < lo; ++i) CHECK(store[i] == GUARD, "output-spill", "%s: wrote before the output view", what);
        for (int i = 0; i < hi; ++i) CHECK(store[lo + n + i] == GUARD, "output-spill", "%s: wrote after the output view", what);
        same(inputs(), in0, "input-changed", what);
    }
}
// ---- a call that fills a resizable vector
void into_vector(Ctx& c, int n, const char* what, const std::function<void(Vector<double>&)>& call, const std::function<Bits()>& inputs)
{
    Rng& r = c.r;
    STEP(what); count("form: output vector");
    const Bits in0 = inputs();
    Vector<double> z(n, 0.0);
    call(z);
    const Bits want = bits(z);
    for (int k = 0; k < 4; ++k)
    {
        int len = k == 0 ? n : k == 1 ? 0 : k == 2 ? n + r.range(1, 9) : r.range(0, 30);
        Vector<double> out(junk_vec(r, len));
        call(out);
        same(bits(out), want, "output-stale", what);
        same(inputs(), in0, "input-changed", what);
    }
}
// ---- a call that fills a dense matrix it may resize
void into_dense(Ctx& c, int m, int n, const char* what, const std::function<void(DenseMatrix&)>& call, const std::function<Bits()>& inputs, bool resizable = true)
{
    Rng& r = c.r;
    STEP(what); count("form: output dense matrix");
    const Bits in0 = inputs();
    DenseMatrix z(m, n); z = 0.0;
    call(z);
    const Bits want = bits(z);
    CHECK(z.Rows() == m && z.Cols() == n, "output-shape", "%s: %dx%d, expected %dx%d", what, z.Rows(), z.Cols(), m, n);
    same(inputs(), in0, "input-changed", what);
    for (int k = 0; k < 6; ++k)
    {
        int a = m, b = n;
        if (!resizable && k > 1) break;
        if (k == 1 && resizable) { a = n; b = m; }
        if (k == 2) { a = 0; b = 0; }
        if (k == 3) { a = m + r.range(1, 5); b = n + r.range(0, 5); }
        if (k == 4) { a = r.range(0, 12); b = r.range(0, 12); }
        if (k == 5) { a = std::max(1, m / 2); b = n * 2; } // about the same number of entries in another shape
        DenseMatrix out(a, b, junk_vec(r, a * b));
        call(out);
        same(bits(out), want, "output-stale", what);
        same(inputs(), in0, "input-changed", what);
    }
}
template <typename T> std::vector<T> junk_any(Rng& r, int n) { std::vector<T> v(n); for (T& x : v) x = (T)r.range(-9, 9); return v; }
template <typename T>
void into_std(Ctx& c, int n, const char* what, const std::function<void(std::vector<T>&)>& call, const std::function<Bits()>& inputs, bool resizable = true)
{
    Rng& r = c.r;
    STEP(what); count("form: output std::vector");
    const Bits in0 = inputs();
    std::vector<T> z(n);
    call(z);
    const Bits want = bits(z);
    for (int k = 0; k < 3; ++k)
    {
        int len = k == 0 || !resizable ? n : r.range(0, n + 9);
        std::vector<T> out = junk_any<T>(r, len);
        call(out);
        same(bits(out), want, "output-stale", what);
        same(inputs(), in0, "input-changed", what);
    }
}

std::vector<double> inputs_vec(Rng& r, int n) { int mode = r.range(0, 3); return gen_vec<double>(r, n, mode); }

// every way to apply an operator
void operator_forms(Ctx& c, const Operator& A, const char* what, bool at, const std::function<Bits()>& self)
{
    Rng& r = c.r;
    const int m = A.Rows(), n = A.Cols();
    for (int rep = 0; rep < 2; ++rep) // the second time the object has been used with other inputs before
    {
        std::vector<double> xs = inputs_vec(r, n), ys = inputs_vec(r, m);
        Vector<double> x(xs), y(ys);
        auto inx = [&]() { Bits b = self(); Bits q = bits(x); b.insert(b.end(), q.begin(), q.end()); return b; };
        auto iny = [&]() { Bits b = self(); Bits q = bits(y); b.insert(b.end(), q.begin(), q.end()); return b; };
        std::string s = std::string(what) + " Mult view", t = std::string(what) + " Mult vector";
        into_view(c, m, s.c_str(), [&](VectorView<double> o) { A.Mult(x, o); }, inx);
        into_vector(c, m, t.c_str(), [&](Vector<double>& o) { A.Mult(x, o); }, inx);
        STEP("operator returned product");
        Vector<double> o1(m, 0.0); A.Mult(x, static_cast<VectorView<double>&>(o1));
        same(bits(A.Mult(x)), bits(o1), "form-differs", "returned product against output argument");
        if (at)
        {
            s = std::string(what) + " MultAT view"; t = std::string(what) + " MultAT vector";
            into_view(c, n, s.c_str(), [&](VectorView<double> o) { A.MultAT(y, o); }, iny);
            into_vector(c, n, t.c_str(), [&](Vector<double>& o) { A.MultAT(y, o); }, iny);
            STEP("operator returned transposed product");
            Vector<double> o2(n, 0.0); A.MultAT(y, static_cast<VectorView<double>&>(o2));
            same(bits(A.MultAT(y)), bits(o2), "form-differs", "returned transposed product against output argument");
        }
        if (m == n && m > 0)
        {
            STEP("operator inner product");
            double a = A.InnerProduct(x, y), b = A.InnerProduct(x, y);
            Bits p, q; put(p, a); put(q, b); same(p, q, "repeat", "InnerProduct");
        }
    }
}

FAMILY(ow_dense, "overwrite.dense")
{
    Rng& r = c.r;
    int m = c.size(), n = c.size(), k = std::min(c.size(), 40);
    if (m > 60) n = std::min(n, 60);
    int mode = r.range(0, 2);
    c.describe("dense %dx%d with %d", m, n, k); c.mix(m); c.mix(n); c.mix(k); c.mix(mode);
    c.nontrivial = m > 1 && n > 1;
    DenseMatrix A = dense_of(gen_ref(r, m, n, mode)), B = dense_of(gen_ref(r, n, k, mode)), C = dense_of(gen_ref(r, m, k, mode)),
                D = dense_of(gen_ref(r, k, n, mode)), E = dense_of(gen_ref(r, k, m, mode));
    auto self = [&]() { return bits(A); };
    operator_forms(c, A, "dense", true, self);
    auto two = [&](const DenseMatrix& X) { return [&A, &X]() { Bits b = bits(A), q = bits(X); b.insert(b.end(), q.begin(), q.end()); return b; }; };
    into_dense(c, m, k, "dense Mult dense", [&](DenseMatrix& o) { A.Mult(B, o); }, two(B));
    into_dense(c, n, k, "dense MultAT dense", [&](DenseMatrix& o) { A.MultAT(C, o); }, two(C));
    into_dense(c, m, k, "dense MultBT dense", [&](DenseMatrix& o) { A.MultBT(D, o); }, two(D));
    into_dense(c, n, k, "dense MultABT dense", [&](DenseMatrix& o) { A.MultABT(E, o); }, two(E));
    into_dense(c, n, m, "dense Transpose", [&](DenseMatrix& o) { A.Transpose(o); }, self);
    {
        STEP("dense returned products");
        DenseMatrix o; A.Mult(B, o); same(bits(A.Mult(B)), bits(o), "form-differs", "dense product");
        A.MultAT(C, o); same(bits(A.MultAT(C)), bits(o), "form-differs", "dense transposed product");
        A.MultBT(D, o); same(bits(A.MultBT(D)), bits(o), "form-differs", "dense product by transpose");
        A.MultABT(E, o); same(bits(A.MultABT(E)), bits(o), "form-differs", "dense transposed product by transpose");
        A.Transpose(o); same(bits(A.Transpose()), bits(o), "form-differs", "dense transpose");
    }
    int i0 = r.range(0, m), i1 = r.range(i0, m), j0 = r.range(0, n), j1 = r.range(j0, n);
    if (i0 < i1) into_dense(c, i1 - i0, n, "dense GetRow range", [&](DenseMatrix& o) { A.GetRow(i0, i1, o); }, self);
    if (j0 < j1) into_dense(c, m, j1 - j0, "dense GetCol range", [&](DenseMatrix& o) { A.GetCol(j0, j1, o); }, self);
    if (i0 < i1 && j0 < j1) into_dense(c, i1 - i0, j1 - j0, "dense GetSubMatrix range", [&](DenseMatrix& o) { A.GetSubMatrix(i0, j0, i1, j1, o); }, self);
    if (m && n)
    {
        std::vector<int> rows(r.range(1, 9)), cols(r.range(1, 9));
        for (int& i : rows) i = r.range(0, m - 1);
        for (int& j : cols) j = r.range(0, n - 1);
        into_dense(c, (int)rows.size(), n, "dense GetRow list", [&](DenseMatrix& o) { A.GetRow(rows, o); }, self, false);
        into_dense(c, (int)rows.size(), (int)cols.size(), "dense GetSubMatrix list", [&](DenseMatrix& o) { A.GetSubMatrix(rows, cols, o); }, self);
        int i = r.range(0, m - 1), j = r.range(0, n - 1);
        into_view(c, n, "dense GetRow view", [&](VectorView<double> o) { A.GetRow(i, o); }, self);
        into_view(c, m, "dense GetCol view", [&](VectorView<double> o) { const DenseMatrix& K = A; K.GetCol(j, o); }, self);
    }
    into_std<double>(c, std::min(m, n), "dense GetDiag", [&](std::vector<double>& o) { if (m == n) A.GetDiag(o); else o.assign(std::min(m, n), 0.0); }, self, false);
    into_std<double>(c, m * n, "dense CopyData", [&](std::vector<double>& o) { A.CopyData(o); }, self);
    {
        std::vector<DenseMatrix> parts; int tot = 0, q = r.range(1, 4);
        for (int p = 0; p < q; ++p) { int w = r.range(0, 5); parts.push_back(dense_of(gen_ref(r, m, w, mode))); tot += w; }
        into_dense(c, m, tot, "HStack", [&](DenseMatrix& o) { HStack(parts, o); }, [&]() { Bits b; for (auto& p : parts) { Bits x = bits(p); b.insert(b.end(), x.begin(), x.end()); } return b; });
        DenseMatrix o; HStack(parts, o);
        same(bits(HStack(parts)), bits(o), "form-differs", "HStack");
    }
    {
        STEP("dense arithmetic inputs");
        DenseMatrix B2 = dense_of(gen_ref(r, m, n, mode)); Bits a0 = bits(A), b0 = bits(B2);
        DenseMatrix s1 = A + B2, s2 = A + B2, d1 = A - B2, d2 = A - B2, k1 = A * 2.5, k2 = 2.5 * A;
        same(bits(s1), bits(s2), "repeat", "sum"); same(bits(d1), bits(d2), "repeat", "difference"); same(bits(k1), bits(k2), "repeat", "scaling");
        same(bits(A), a0, "input-changed", "arithmetic left operand"); same(bits(B2), b0, "input-changed", "arithmetic right operand");
    }
}

FAMILY(ow_factor, "overwrite.factor")
{
    Rng& r = c.r;
    int n = std::min(std::max(1, c.size(1)), 40), m = r.chance(1, 2) ? n : std::min(c.size(1), 40);
    c.describe("factorise %dx%d", m, n); c.mix(m); c.mix(n); c.nontrivial = n > 1 && m > 1;
    DenseMatrix S = dense_of(gen_ref(r, n, n, 2)); for (int i = 0; i < n; ++i) S(i, i) += 4 * (S(i, i) < 0 ? -1 : 1) + n * (S(i, i) < 0 ? -1 : 1);
    into_dense(c, n, n, "Invert into", [&](DenseMatrix& o) { S.Invert(o); }, [&]() { return bits(S); });
    { STEP("Invert in place"); DenseMatrix t(S), o; t.Invert(); S.Invert(o); same(bits(t), bits(o), "form-differs", "inverse in place"); }
    DenseMatrix R = dense_of(gen_ref(r, m, n, 2));
    int q = std::min(m, n);
    { STEP("QR shape"); DenseMatrix o; R.QR(o); into_dense(c, o.Rows(), o.Cols(), "QR into", [&](DenseMatrix& p) { R.QR(p); }, [&]() { return bits(R); }); DenseMatrix t(R); t.QR(); same(bits(t), bits(o), "form-differs", "QR in place"); }
    {
        STEP("SVD shape"); DenseMatrix o; std::vector<double> s0 = R.SVD(o);
        into_dense(c, o.Rows(), o.Cols(), "SVD into", [&](DenseMatrix& p) { std::vector<double> s = R.SVD(p); same(bits(s), bits(s0), "repeat", "singular values"); }, [&]() { return bits(R); });
        DenseMatrix t(R); std::vector<double> s1 = t.SVD(); same(bits(s1), bits(s0), "form-differs", "SVD in place values"); same(bits(t), bits(o), "form-differs", "SVD in place");
    }
    (void)q;
    // one eigen solver for everything, and a fresh one each time
    EigenSolver used;
    for (int k = 0; k < 3; ++k)
    {
        int p = r.range(1, 12);
        Ref G = gen_ref(r, p, p, 2); for (int i = 0; i < p; ++i) for (int j = 0; j < i; ++j) G(i, j) = G(j, i);
        DenseMatrix M = dense_of(G);
        SparseMatrix<double> Sp; { SpModel E(p, p); for (int i = 0; i < p; ++i) for (int j = 0; j < p; ++j) E.e[std::make_pair(i, j)] = G(i, j); Sp = build_csr<double>(r, E, false); }
        Bits m0 = bits(M), s0 = bits(Sp);
        double tol = r.chance(1, 2) ? 1.0 : r.uniform(0.01, 1.0); int mx = r.range(1, p);
        STEP("eigen used against fresh");
        EigenSolver fresh;
        auto a = used.Solve(M, tol, mx); auto b = fresh.Solve(M, tol, mx); auto d = used.Solve(M, tol, mx); auto e = used.Solve(Sp, tol, mx);
        same(bits(a.first), bits(b.first), "output-stale", "eigenvalues of a used solver"); same(bits(a.second), bits(b.second), "output-stale", "eigenvectors of a used solver");
        same(bits(a.first), bits(d.first), "repeat", "eigenvalues"); same(bits(a.second), bits(d.second), "repeat", "eigenvectors");
        same(bits(a.first), bits(e.first), "form-differs", "eigenvalues of sparse"); same(bits(a.second), bits(e.second), "form-differs", "eigenvectors of sparse");
        same(bits(M), m0, "input-changed", "eigen dense input"); same(bits(Sp), s0, "input-changed", "eigen sparse input");
    }
}

template <typename T>
void sparse_case(Ctx& c)
{
    Rng& r = c.r;
    int m = c.size(), n = c.size(), k = std::min(c.size(), 30), mode = ModeOf<T>::pick(r);
    c.describe("sparse %dx%d with %d columns", m, n, k); c.mix(m); c.mix(n); c.mix(k); c.mix(mode);
    SpModel M = gen_sp(c, m, n, mode), N = gen_sp(c, n, k, mode);
    SparseMatrix<T> A = build_csr<T>(r, M, r.chance(1, 2)), B = build_csr<T>(r, N, r.chance(1, 2));
    c.nontrivial = !M.e.empty();
    auto self = [&]() { return bits(A); };
    operator_forms(c, A, "sparse", true, self);
    DenseMatrix X = dense_of(gen_ref(r, n, k, mode)), Y = dense_of(gen_ref(r, m, k, mode));
    auto two = [&](const DenseMatrix& Z) { return [&A, &Z]() { Bits b = bits(A), q = bits(Z); b.insert(b.end(), q.begin(), q.end()); return b; }; };
    into_dense(c, m, k, "sparse Mult dense", [&](DenseMatrix& o) { A.Mult(X, o); }, two(X));
    into_dense(c, n, k, "sparse MultAT dense", [&](DenseMatrix& o) { A.MultAT(Y, o); }, two(Y));
    into_dense(c, k, m, "sparse MultCT dense", [&](DenseMatrix& o) { A.MultCT(X, o); }, two(X));
    into_dense(c, m, n, "sparse ToDense", [&](DenseMatrix& o) { A.ToDense(o); }, self);
    into_dense(c, n, m, "sparse TransposeDense", [&](DenseMatrix& o) { A.TransposeDense(o); }, self);
    {
        STEP("sparse returned forms");
        DenseMatrix o; A.Mult(X, o); same(bits(A.Mult(X)), bits(o), "form-differs", "sparse Mult dense");
        A.MultAT(Y, o); same(bits(A.MultAT(Y)), bits(o), "form-differs", "sparse MultAT dense");
        A.MultCT(X, o); same(bits(A.MultCT(X)), bits(o), "form-differs", "sparse MultCT dense");
        A.ToDense(o); same(bits(A.ToDense()), bits(o), "form-differs", "sparse ToDense");
        A.TransposeDense(o); same(bits(A.TransposeDense()), bits(o), "form-differs", "sparse TransposeDense");
    }
    {
        STEP("sparse products with a used marker"); count("form: work array");
        Bits a0 = bits(A), b0 = bits(B);
        SparseMatrix<T> P = A.template Mult<T, T>(B);
        for (int q = 0; q < 3; ++q)
        {
            std::vector<int> marker = junk_any<int>(r, q == 0 ? k : r.range(0, k + 8));
            SparseMatrix<T> Q = A.template Mult<T, T>(B, marker);
            same(bits(Q), bits(P), "output-stale", "product with a work array");
        }
        same(bits(A), a0, "input-changed", "sparse product left operand"); same(bits(B), b0, "input-changed", "sparse product right operand");
    }
    if (m && n)
    {
        STEP("submatrix with a used marker");
        std::vector<int> rows, cols; for (int i = 0; i < m; ++i) if (r.chance(1, 2)) rows.push_back(i);
        for (int j = 0; j < n; ++j) if (r.chance(1, 2)) cols.push_back(j);
        r.shuffle(rows); r.shuffle(cols);
        if (!rows.empty() && !cols.empty())
        {
            Bits a0 = bits(A);
            SparseMatrix<T> P = A.GetSubMatrix(rows, cols);
            std::vector<int> marker(n, -1);
            for (int q = 0; q < 3; ++q)
            {
                SparseMatrix<T> Q = A.GetSubMatrix(rows, cols, marker); // the work array is handed on from call to call
                same(bits(Q), bits(P), "output-stale", "submatrix with a work array");
                if (q == 0 && n > 1) { std::vector<int> c2(1, r.range(0, n - 1)); A.GetSubMatrix(rows, c2, marker); }
            }
            same(bits(A), a0, "input-changed", "submatrix source");
        }
    }
    {
        STEP("sparse const calls leave the matrix");
        Bits a0 = bits(A);
        Bits t1 = bits(A.Transpose()), t2 = bits(A.Transpose()); same(t1, t2, "repeat", "Transpose");
        A.Sum(); if (A.nnz()) A.MaxNorm(); if (m == n) { Bits d1 = bits(A.GetDiag()), d2 = bits(A.GetDiag()); same(d1, d2, "repeat", "GetDiag"); }
        std::ostringstream o; A.Print("x", o); if (m < 20 && n < 20) A.PrintDense("y", o);
        same(bits(A), a0, "input-changed", "const calls");
    }
}
FAMILY(ow_spd, "overwrite.sparse.double") { sparse_case<double>(c); }
FAMILY(ow_spi, "overwrite.sparse.int") { sparse_case<int>(c); }

template <typename M, typename T>
void triplet_case(Ctx& c, const char* nm)
{
    Rng& r = c.r;
    int m = c.size(1), n = c.size(1), mode = ModeOf<T>::pick(r), e = r.range(0, 3 * (m + n));
    M A(m, n);
    for (int k = 0; k < e; ++k) A.Add(r.range(0, m - 1), r.range(0, n - 1), (T)gen_val(r, mode));
    c.describe("%s %dx%d, %d entries", nm, m, n, e); c.mix(m); c.mix(n); c.mix(e); c.mix(mode); c.nontrivial = e > 1;
    auto self = [&]() { return bits(A); };
    operator_forms(c, A, nm, true, self);
    into_dense(c, m, n, "triplet ToDense", [&](DenseMatrix& o) { A.ToDense(o); }, self);
    STEP("triplet ToSparse repeated");
    Bits a0 = bits(A);
    same(bits(A.ToSparse()), bits(A.ToSparse()), "repeat", "ToSparse");
    DenseMatrix o; A.ToDense(o); same(bits(A.ToDense()), bits(o), "form-differs", "ToDense");
    same(bits(A), a0, "input-changed", "triplet conversions");
}
FAMILY(ow_cood, "overwrite.coo.double") { triplet_case<CooMatrix<double>, double>(c, "coo"); }
FAMILY(ow_cooi, "overwrite.coo.int") { triplet_case<CooMatrix<int>, int>(c, "coo"); }
FAMILY(ow_lild, "overwrite.lil.double") { triplet_case<LilMatrix<double>, double>(c, "lil"); }
FAMILY(ow_lili, "overwrite.lil.int") { triplet_case<LilMatrix<int>, int>(c, "lil"); }

std::vector<int> gen_offsets(Rng& r)
{
    std::vector<int> o(1, 0); int k = r.range(1, 4);
    for (int i = 0; i < k; ++i) o.push_back(o.back() + (r.chance(1, 6) ? 0 : r.range(1, 8)));
    return o;
}
FAMILY(ow_block, "overwrite.block")
{
    Rng& r = c.r;
    std::vector<int> ro = gen_offsets(r), co = gen_offsets(r);
    int nb = (int)ro.size() - 1, mb = (int)co.size() - 1, set = 0, mode = r.range(0, 3);
    BlockMatrix<double> A(ro, co); BlockOperator B(ro, co);
    std::vector<std::unique_ptr<Operator>> keep;
    std::vector<Bits> kept; std::vector<std::function<Bits()>> probes;
    for (int i = 0; i < nb; ++i) for (int j = 0; j < mb; ++j)
    {
        int p = ro[i + 1] - ro[i], q = co[j + 1] - co[j];
        if (r.chance(2, 3)) { A.SetBlock(i, j, build_csr<double>(r, gen_sp(c, p, q, mode), true)); ++set; }
        if (r.chance(2, 3))
        {
            if (r.chance(1, 2)) { DenseMatrix* D = new DenseMatrix(dense_of(gen_ref(r, p, q, mode))); keep.emplace_back(D); probes.push_back([D]() { return bits(*D); }); }
            else { SparseMatrix<double>* S = new SparseMatrix<double>(build_csr<double>(r, gen_sp(c, p, q, mode), true)); keep.emplace_back(S); probes.push_back([S]() { return bits(*S); }); }
            B.SetBlock(i, j, *keep.back()); ++set;
        }
    }
    c.describe("blocks %dx%d, %dx%d, %d set", nb, mb, ro.back(), co.back(), set); for (int v : ro) c.mix(v); for (int v : co) c.mix(v); c.mix(set); c.nontrivial = set > 1;
    operator_forms(c, A, "block matrix", true, [&]() { return bits(A); });
    auto bself = [&]() { Bits b; for (auto& p : probes) { Bits q = p(); b.insert(b.end(), q.begin(), q.end()); } return b; };
    operator_forms(c, B, "block operator", true, bself);
    {
        STEP("copy of a used block operator"); BlockOperator K(B); operator_forms(c, K, "copied block operator", true, bself);
        Vector<double> x(inputs_vec(r, co.back())); same(bits(K.Mult(x)), bits(B.Mult(x)), "form-differs", "copied block operator");
    }
    STEP("block repeated"); Bits a0 = bits(A);
    same(bits(A.Combine()), bits(A.Combine()), "repeat", "Combine"); same(bits(A.Transpose()), bits(A.Transpose()), "repeat", "block Transpose");
    same(bits(A), a0, "input-changed", "block conversions");
}

FAMILY(ow_solver, "overwrite.solver")
{
    Rng& r = c.r;
    int n = std::min(c.size(1), 40);
    SpModel M(n, n); Ref G(n, n);
    for (int i = 0; i < n; ++i) { M.e[std::make_pair(i, i)] = 6 + r.unit(); for (int q = 0; q < 2; ++q) { int j = r.range(0, n - 1); if (j != i) { double v = r.uniform(-1, 1); M.e[std::make_pair(i, j)] = v; } } }
    c.describe("solve %d", n); c.mix(n); c.mix(M.e.size()); c.nontrivial = n > 1;
    SparseMatrix<double> A = build_csr<double>(r, M, false);
    Bits a0 = bits(A);
    SparseSolver direct(A);
    operator_forms(c, direct, "direct solver", r.chance(1, 1) ? false : false, [&]() { return bits(A); });
    // Krylov: the target is the initial guess; the right-hand side, the operator and the preconditioner are inputs
    SpModel S(n, n);
    for (auto& p : M.e) { S.e[p.first] += p.second; S.e[std::make_pair(p.first.second, p.first.first)] += p.second; }
    SparseMatrix<double> K = build_csr<double>(r, S, true);
    std::vector<double> dg(n); for (double& v : dg) v = r.uniform(0.5, 2);
    SparseMatrix<double> P(dg);
    Bits k0 = bits(K), p0 = bits(P);
    int it = r.range(1, 2 * n + 20);
    std::vector<std::unique_ptr<Solver>> sol;
    sol.emplace_back(new PCGSolver(K, it, 1e-10)); sol.emplace_back(new PCGSolver(K, P, it, 1e-10));
    sol.emplace_back(new MINRESSolver(K, it, 1e-10)); sol.emplace_back(new PMINRESSolver(K, P, it, 1e-10));
    for (int q = 0; q < 3; ++q)
    {
        Vector<double> b(inputs_vec(r, n)); Bits b0 = bits(b);
        std::vector<double> guess = q == 0 ? std::vector<double>(n, 0.0) : inputs_vec(r, n);
        for (size_t s = 0; s < sol.size(); ++s)
        {
            STEP("krylov repeated"); count("form: initial guess");
            Vector<double> x1(guess), x2(guess);
            sol[s]->Mult(b, static_cast<VectorView<double>&>(x1)); int i1 = sol[s]->GetNumIterations();
            sol[s]->Mult(b, static_cast<VectorView<double>&>(x2)); int i2 = sol[s]->GetNumIterations();
            same(bits(x1), bits(x2), "repeat", "solution"); CHECK(i1 == i2, "repeat", "iterations %d then %d", i1, i2);
            std::unique_ptr<Solver> fresh;
            if (s == 0) fresh.reset(new PCGSolver(K, it, 1e-10)); else if (s == 1) fresh.reset(new PCGSolver(K, P, it, 1e-10));
            else if (s == 2) fresh.reset(new MINRESSolver(K, it, 1e-10)); else fresh.reset(new PMINRESSolver(K, P, it, 1e-10));
            Vector<double> x3(guess); fresh->Mult(b, static_cast<VectorView<double>&>(x3));
            same(bits(x1), bits(x3), "output-stale", "solution of a used solver against a fresh one");
            // the returned form starts from zero whatever happened before
            Vector<double> z(n, 0.0); fresh->Mult(b, static_cast<VectorView<double>&>(z));
            same(bits(sol[s]->Mult(b)), bits(z), "form-differs", "returned solution");
            same(bits(b), b0, "input-changed", "right-hand side"); same(bits(K), k0, "input-changed", "operator"); same(bits(P), p0, "input-changed", "preconditioner");
        }
    }
    same(bits(A), a0, "input-changed", "direct solver matrix");
}

FAMILY(ow_vec, "overwrite.vector")
{
    Rng& r = c.r;
    int n = c.size(), mode = r.range(0, 3);
    c.describe("vectors of %d", n); c.mix(n); c.mix(mode); c.nontrivial = n > 1;
    Vector<double> x(gen_vec<double>(r, n, mode)), y(gen_vec<double>(r, n, mode));
    c.mixd(n ? x[0] : 0);
    auto self = [&]() { Bits b = bits(x), q = bits(y); b.insert(b.end(), q.begin(), q.end()); return b; };
    into_view(c, n, "Add(x,y,z)", [&](VectorView<double> o) { Add(x, y, o); }, self);
    into_view(c, n, "Sub(x,y,z)", [&](VectorView<double> o) { Sub(x, y, o); }, self);
    double al = gen_val(r, mode), be = gen_val(r, mode);
    into_view(c, n, "Add(a,x,b,y,0,z) into finite", [&](VectorView<double> o) { for (int i = 0; i < n; ++i) if (!std::isfinite(o[i])) o[i] = 3.0; Add(al, x, be, y, 0.0, o); for (int i = 0; i < n; ++i) if (o[i] == 0) o[i] = 0; }, self);
    into_view(c, n, "Set view", [&](VectorView<double> o) { o.Set(x); }, self);
    into_view(c, n, "Set scaled view", [&](VectorView<double> o) { o.Set(al, x); }, self);
    into_view(c, n, "assign view", [&](VectorView<double> o) { o = x; }, self);
    into_view(c, n, "assign value", [&](VectorView<double> o) { o = 2.5; }, self);
    into_vector(c, n, "assign vector", [&](Vector<double>& o) { o = x; }, self);
    if (n)
    {
        std::vector<int> idx(r.range(0, 12)); for (int& i : idx) i = r.range(0, n - 1);
        into_vector(c, (int)idx.size(), "GetSubVector", [&](Vector<double>& o) { x.GetSubVector(idx, o); }, self);
        Vector<double> o; x.GetSubVector(idx, o); same(bits(x.GetSubVector(idx)), bits(o), "form-differs", "GetSubVector");
    }
    STEP("random repeated");
    int seed = r.range(1, 1 << 20);
    into_view(c, n, "Randomize seeded", [&](VectorView<double> o) { Randomize(o, -2.0, 3.0, seed); }, self);
    STEP("vector reductions leave inputs");
    Bits s0 = self();
    Sum(x); if (n) { Max(x); Min(x); AbsMax(x); AbsMin(x); Mean(x); } L2Norm(x); InnerProduct(x, y);
    Vector<double> s = x + y, d = x - y, p = x * 2.0, q = 2.0 * x; (void)s; (void)d; (void)p; (void)q;
    same(self(), s0, "input-changed", "reductions and arithmetic");
}

FAMILY(ow_part, "overwrite.partition")
{
    Rng& r = c.r;
    int n = std::max(2, std::min(c.size(2), 60));
    SpModel M(n, n);
    for (int i = 0; i + 1 < n; ++i) M.e[std::make_pair(i, i + 1)] = M.e[std::make_pair(i + 1, i)] = -1;
    for (int k = 0; k < n; ++k) { int i = r.range(0, n - 1), j = r.range(0, n - 1); if (i != j) M.e[std::make_pair(i, j)] = M.e[std::make_pair(j, i)] = -2; }
    int parts = r.range(1, std::max(1, n / 3));
    c.describe("partition %d into %d", n, parts); c.mix(n); c.mix(parts); c.mix(M.e.size()); c.nontrivial = parts > 1;
    SparseMatrix<double> A = build_csr<double>(r, M, false); Bits a0 = bits(A);
    STEP("Partition repeated");
    std::vector<int> p = Partition(A, parts), q = Partition(A, parts);
    same(bits(p), bits(q), "repeat", "Partition"); same(bits(A), a0, "input-changed", "Partition graph");
}
} // namespace
