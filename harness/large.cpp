// Sizes far beyond the other workloads: thousands of rows, tens of thousands of entries and values,
// long files, big graphs. Same oracles, cheap enough to evaluate at that size. (C03, C05-C12, C14, C15,
// C17, C20-C22)
#include "sp.hpp"
#include "sparsesolve.hpp"
#include "partition.hpp"
#include <unistd.h>
using namespace linalgcpp;
using namespace vh;

namespace
{
typedef std::vector<double> Dv;
int logsize(Rng& r, int lo, int hi) { return (int)(lo * std::pow((double)hi / lo, r.unit())); }
// close to a power of two or a page now and then
int notable(Rng& r, int lo, int hi)
{
    int n = logsize(r, lo, hi);
    if (r.chance(1, 2)) { int p = 1; while (p * 2 <= n) p *= 2; n = p + r.range(-1, 1); }
    return n < lo ? lo : n > hi ? hi : n;
}
template <typename T>
void cmp(const VectorView<T>& got, const Dv& want, const Dv& mag, double k, const char* key, const char* what)
{
    CHECK((size_t)got.size() == want.size(), key, "%s: size %d expected %zu", what, got.size(), want.size());
    for (size_t i = 0; i < want.size(); ++i)
        CHECK(near((double)got[i], want[i], mag[i], k), key, "%s: entry %zu of %zu is %.17g, expected %.17g", what, i, want.size(), (double)got[i], want[i]);
}

// ------------------------------------------------------------------ vectors
template <typename T>
void vectors(Ctx& c)
{
    Rng& r = c.r;
    const bool isint = std::is_same<T, int>::value;
    const int n = notable(r, 200, 70000), mode = isint ? 0 : r.range(0, 2);
    std::vector<T> xv = gen_vec<T>(r, n, mode), yv = gen_vec<T>(r, n, mode);
    // the extremes at a random place, the ends included
    const int hi = r.chance(1, 3) ? (r.chance(1, 2) ? 0 : n - 1) : r.range(0, n - 1), lo = (hi + r.range(1, n - 1)) % n;
    xv[hi] = (T)1000; xv[lo] = (T)-2000;
    c.nontrivial = true; c.mix(n); c.mix(hi); c.mix(lo); for (int i = 0; i < 5; ++i) c.mixd((double)xv[i]);
    c.describe("n=%d mode=%d", n, mode);
    const char* key = "large-vector";
    Vector<T> x(xv), y(yv);
    long double dot = 0, dota = 0, sum = 0, suma = 0, sq = 0;
    double amin = 1e300;
    for (int i = 0; i < n; ++i) { dot += (long double)xv[i] * yv[i]; dota += std::fabs((double)xv[i] * yv[i]); sum += xv[i]; suma += std::fabs((double)xv[i]); sq += (long double)xv[i] * xv[i]; amin = std::min(amin, std::fabs((double)xv[i])); }
    STEP("reductions");
    CHECK(near((double)(x * y), (double)dot, (double)dota, n), key, "inner product %.17g, expected %.17g", (double)(x * y), (double)dot);
    CHECK(near((double)x.Mult(y), (double)dot, (double)dota, n), key, "Mult");
    CHECK(near((double)x.Sum(), (double)sum, (double)suma, n) && near((double)Sum(x), (double)sum, (double)suma, n), key, "Sum %.17g, expected %.17g", (double)x.Sum(), (double)sum);
    CHECK(near(Mean(x), (double)(sum / n), (double)(suma / n), n), key, "Mean %.17g, expected %.17g", Mean(x), (double)(sum / n));
    CHECK(near(x.L2Norm(), (double)std::sqrt(sq), (double)std::sqrt(sq), n) && near(L2Norm(x), (double)std::sqrt(sq), (double)std::sqrt(sq), n), key, "L2Norm %.17g, expected %.17g", x.L2Norm(), (double)std::sqrt(sq));
    CHECK(Max(x) == (T)1000 && Min(x) == (T)-2000 && AbsMax(x) == (T)2000, key, "extrema %g %g %g", (double)Max(x), (double)Min(x), (double)AbsMax(x));
    CHECK((double)AbsMin(x) == amin, key, "AbsMin %g expected %g", (double)AbsMin(x), amin);
    Vector<T> z(x); CHECK(z == x, key, "a copy differs"); z[hi] = (T)999; CHECK(!(z == x), key, "a changed copy of %d entries compares equal", n);
    STEP("updates");
    Dv w(n), mag(n);
    const double a = isint ? 3 : 0.75;
    const int op = r.range(0, 7); c.mix(op);
    for (int i = 0; i < n; ++i)
    {
        double p = xv[i], q = yv[i];
        double v[] = {p + q, p - q, p * q, p + a * q, p - a * q, a * q, p * 2, a * p + a * q + 2 * p};
        w[i] = v[op]; mag[i] = std::fabs(p) * 4 + std::fabs(q) * 4 + std::fabs(w[i]);
    }
    switch (op)
    {
        case 0: x += y; break;
        case 1: x -= y; break;
        case 2: x *= y; break;
        case 3: x.Add(a, y); break;
        case 4: x.Sub(a, y); break;
        case 5: x.Set(a, y); break;
        case 6: x *= (T)2; break;
        default: { VectorView<T> xw(x); linalgcpp::Add((T)a, xw, (T)a, y, (T)2, xw); if (isint) break; break; }
    }
    cmp<T>(x, w, mag, 4, key, "update");
    for (int i = 0; i < n; ++i) CHECK(y[i] == yv[i], "operand-changed", "operand entry %d", i);
    STEP("GetSubVector");
    std::vector<int> ix(r.range(1, 2000)); for (int& i : ix) i = r.range(0, n - 1);
    Vector<T> s = y.GetSubVector(ix);
    for (size_t i = 0; i < ix.size(); ++i) CHECK(s[i] == yv[ix[i]], key, "GetSubVector entry %zu", i);
    STEP("Randomize");
    Vector<T> ra(n), rb(n, (T)5); ra.Randomize(-3, 40, 17); rb.Randomize(-3, 40, 17);
    CHECK(ra == rb, key, "the same seed gives different values");
    CHECK((double)Min(ra) >= -3 && (double)Max(ra) <= 40, key, "random values out of range");
}

// ------------------------------------------------------------------- sparse
struct Big { int m, n; std::vector<std::map<int, double>> row; long nnz() const { long k = 0; for (auto& q : row) k += (long)q.size(); return k; } };
Big gen_big(Rng& r, int m, int n, int mode, int per)
{
    Big B; B.m = m; B.n = n; B.row.resize(m);
    const int kind = r.range(0, 3);
    for (int i = 0; i < m; ++i)
    {
        if (kind == 1 && r.chance(1, 3)) continue;              // empty rows
        int k = r.range(kind == 0 ? 1 : 0, per);
        if (kind == 2 && i == m / 2) k = std::min(n, 1500);     // one long row
        for (int q = 0; q < k; ++q)
        {
            int j = kind == 3 ? std::min(n - 1, std::max(0, (int)((long)i * n / std::max(1, m)) + r.range(-per, per))) : r.range(0, n - 1);
            B.row[i][j] = gen_nz(r, mode);
        }
    }
    return B;
}
template <typename T>
SparseMatrix<T> csr(Rng& r, const Big& B)
{
    std::vector<int> p(1, 0), ind; std::vector<T> d; const bool sh = r.chance(1, 2);
    for (auto& row : B.row)
    {
        std::vector<std::pair<int, double>> e(row.begin(), row.end()); if (sh) r.shuffle(e);
        for (auto& q : e) { ind.push_back(q.first); d.push_back((T)q.second); }
        p.push_back((int)ind.size());
    }
    return SparseMatrix<T>(p, ind, d, B.m, B.n);
}
template <typename T>
void same_big(const SparseMatrix<T>& A, const Big& B, double k, const std::vector<std::map<int, double>>* mag, bool pattern, const char* key, const char* what)
{
    // the structural monitor, without maps
    count("monitor: CSR structure walked");
    CHECK(A.Rows() == B.m && A.Cols() == B.n && (int)A.GetIndptr().size() == B.m + 1 && A.GetIndptr()[0] == 0 && A.GetIndptr()[B.m] == A.nnz() && A.GetIndices().size() == A.GetData().size() && (int)A.GetData().size() == A.nnz(), "wf-shape", "%s: %dx%d with %zu row pointers, expected %dx%d", what, A.Rows(), A.Cols(), A.GetIndptr().size(), B.m, B.n);
    std::vector<int> seen(B.n, -1);
    for (int i = 0; i < B.m; ++i)
    {
        CHECK(A.GetIndptr()[i] <= A.GetIndptr()[i + 1], "wf-indptr", "%s: row pointers decrease at %d", what, i);
        size_t found = 0;
        for (int q = A.GetIndptr()[i]; q < A.GetIndptr()[i + 1]; ++q)
        {
            int j = A.GetIndices()[q]; double v = A.GetData()[q];
            CHECK(j >= 0 && j < B.n, "wf-column", "%s: column %d in row %d", what, j, i);
            CHECK(seen[j] != i, "wf-duplicate", "%s: entry (%d,%d) stored twice", what, i, j); seen[j] = i;
            auto it = B.row[i].find(j);
            if (it == B.row[i].end()) { CHECK(!pattern && v == 0, key, "%s: entry (%d,%d)=%.17g should not be there", what, i, j, v); continue; }
            ++found;
            CHECK(near(v, it->second, mag ? (*mag)[i].find(j)->second : std::fabs(it->second), k), key, "%s: entry (%d,%d) is %.17g, expected %.17g", what, i, j, v, it->second);
        }
        if (found != B.row[i].size())
            for (auto& e : B.row[i]) { bool in = false; for (int q = A.GetIndptr()[i]; q < A.GetIndptr()[i + 1]; ++q) in = in || A.GetIndices()[q] == e.first; CHECK(in || (!pattern && near(0, e.second, mag ? (*mag)[i].find(e.first)->second : 0, k)), key, "%s: entry (%d,%d) is missing", what, i, e.first); }
    }
}
Big flip(const Big& B) { Big C; C.m = B.n; C.n = B.m; C.row.resize(B.n); for (int i = 0; i < B.m; ++i) for (auto& e : B.row[i]) C.row[e.first][i] = e.second; return C; }
template <typename T>
void sparses(Ctx& c)
{
    Rng& r = c.r;
    const bool isint = std::is_same<T, int>::value;
    const int mode = isint ? 0 : r.range(0, 2);
    const int m = notable(r, 60, 4000), n = r.chance(1, 3) ? m : notable(r, 60, 4000);
    Big B = gen_big(r, m, n, mode, r.range(1, 9));
    SparseMatrix<T> A = csr<T>(r, B);
    const int op = r.range(0, 9);
    c.nontrivial = true; c.mix(m); c.mix(n); c.mix(op); c.mix(A.nnz()); c.describe("%dx%d nnz=%d op=%d", m, n, A.nnz(), op);
    const char* key = "large-sparse";
    if (op <= 1)
    {
        const Big& W = op ? flip(B) : B;
        Dv x = gen_vec<double>(r, W.n, isint ? 1 : mode), y(W.m), g(W.m);
        for (int i = 0; i < W.m; ++i) { long double s = 0, t = 0; for (auto& e : W.row[i]) { s += (long double)e.second * x[e.first]; t += std::fabs(e.second * x[e.first]); } y[i] = (double)s; g[i] = (double)t; }
        Vector<double> X(x), Y(W.m, 7.0);
        STEP(op ? "MultAT" : "Mult"); const Operator& O = A; if (op) O.MultAT(X, Y); else O.Mult(X, Y);
        cmp<double>(Y, y, g, 4000, key, "product");
        if (!isint) { Y = NAN; STEP("view form"); if (op) A.MultAT(X, VectorView<double>(Y)); else A.Mult(X, VectorView<double>(Y)); cmp<double>(Y, y, g, 4000, key, "product into a view"); }
    }
    else if (op == 2) { STEP("Transpose"); same_big(A.Transpose(), flip(B), 1, nullptr, true, key, "transpose"); }
    else if (op <= 4)
    {
        const int p = notable(r, 60, 4000);
        Big C = gen_big(r, n, p, mode, r.range(1, 6));
        SparseMatrix<T> D = csr<T>(r, C);
        Big P; P.m = m; P.n = p; P.row.resize(m); std::vector<std::map<int, double>> g(m);
        for (int i = 0; i < m; ++i) for (auto& e : B.row[i]) for (auto& f : C.row[e.first]) { P.row[i][f.first] += e.second * f.second; g[i][f.first] += std::fabs(e.second * f.second); }
        std::vector<int> mk; if (r.chance(1, 2)) mk.assign(r.range(0, p), -1);
        STEP("Mult(sparse)"); if (op == 3) same_big(A.Mult(D), P, 600, &g, false, key, "sparse product");
        else { same_big(A.Mult(D, mk), P, 600, &g, false, key, "sparse product with workspace"); same_big(A.Mult(D, mk), P, 600, &g, false, key, "sparse product with used workspace"); }
    }
    else if (op == 5)
    {
        std::vector<int> R_(m), C_(n); for (int i = 0; i < m; ++i) R_[i] = i; for (int j = 0; j < n; ++j) C_[j] = j;
        r.shuffle(R_); r.shuffle(C_); R_.resize(r.range(1, m)); C_.resize(r.range(1, n));
        std::vector<int> at(n, -1); for (size_t j = 0; j < C_.size(); ++j) at[C_[j]] = (int)j;
        Big S; S.m = (int)R_.size(); S.n = (int)C_.size(); S.row.resize(S.m);
        for (int i = 0; i < S.m; ++i) for (auto& e : B.row[R_[i]]) if (at[e.first] >= 0) S.row[i][at[e.first]] = e.second;
        std::vector<int> mk(n, -1);
        STEP("GetSubMatrix"); same_big(A.GetSubMatrix(R_, C_), S, 1, nullptr, true, key, "submatrix");
        for (int q = 0; q < 2; ++q) same_big(A.GetSubMatrix(R_, C_, mk), S, 1, nullptr, true, key, "submatrix with workspace");
    }
    else if (op == 6)
    {
        std::vector<T> d = gen_vec<T>(r, m, mode), e = gen_vec<T>(r, n, mode);
        STEP("ScaleRows, ScaleCols"); A.ScaleRows(d); A.ScaleCols(e);
        for (int i = 0; i < m; ++i) for (auto& q : B.row[i]) q.second = q.second * d[i] * e[q.first];
        same_big(A, B, 4, nullptr, true, key, "scaled");
    }
    else if (op == 7)
    {
        std::vector<int> p(n); for (int j = 0; j < n; ++j) p[j] = j; r.shuffle(p);
        STEP("PermuteCols, SortIndices"); A.PermuteCols(p); A.SortIndices();
        Big S = B; for (auto& q : S.row) q.clear(); for (int i = 0; i < m; ++i) for (auto& e : B.row[i]) S.row[i][p[e.first]] = e.second;
        same_big(A, S, 1, nullptr, true, key, "permuted");
        for (int i = 0; i < m; ++i) CHECK(std::is_sorted(A.GetIndices().begin() + A.GetIndptr()[i], A.GetIndices().begin() + A.GetIndptr()[i + 1]), key, "row %d not sorted", i);
    }
    else if (op == 8)
    {
        for (auto& q : B.row) for (auto& e : q) if (r.chance(1, 3)) e.second = 0;
        A = csr<T>(r, B);
        STEP("EliminateZeros"); A.EliminateZeros();
        for (auto& q : B.row) for (auto it = q.begin(); it != q.end();) if (it->second == 0) it = q.erase(it); else ++it;
        same_big(A, B, 1, nullptr, true, key, "zeros eliminated");
    }
    else
    {
        std::vector<int> mk(std::max(m, n)); for (int& v : mk) v = r.chance(1, 10);
        Dv x = gen_vec<double>(r, n, isint ? 0 : mode), b = gen_vec<double>(r, m, isint ? 0 : mode), g(m);
        Vector<double> bv(b);
        STEP("EliminateCol(marker,x,b)"); A.EliminateCol(mk, Vector<double>(x), bv);
        for (int i = 0; i < m; ++i) { g[i] = std::fabs(b[i]); for (auto& e : B.row[i]) if (mk[e.first]) { b[i] -= e.second * x[e.first]; g[i] += std::fabs(e.second * x[e.first]); e.second = 0; } }
        same_big(A, B, 1, nullptr, true, key, "columns eliminated");
        cmp<double>(bv, b, g, 2000, key, "right hand side");
    }
}

// ----------------------------------------------------------------- assembly
template <typename T>
void assemblies(Ctx& c)
{
    Rng& r = c.r;
    // positions that a key of 32 or 16 bits, or a symmetric one, would confuse
    const bool collide = r.chance(1, 4);
    const int m = collide ? r.range(65600, 70000) : notable(r, 50, 3000), n = collide ? r.range(65600, 70000) : notable(r, 50, 3000), k = logsize(r, 500, collide ? 4000 : 40000);
    int li = 0, lj = 0;
    const bool declared = r.chance(1, 2), coo = r.chance(1, 2);
    c.nontrivial = true; c.mix(m); c.mix(n); c.mix(k); c.describe("%d contributions to %dx%d, %s", k, m, n, coo ? "coordinate" : "list of lists");
    CooMatrix<T> C; LilMatrix<T> L;
    if (declared) { C = CooMatrix<T>(m, n); L = LilMatrix<T>(m, n); }
    if (coo && r.chance(1, 2)) C.Reserve(k);
    Big B; B.m = m; B.n = n; B.row.resize(m);
    const int hot = r.range(1, 60);
    for (int q = 0; q < k; ++q)
    {
        int i = r.chance(1, 3) ? r.range(0, std::min(m - 1, hot)) : r.range(0, m - 1), j = r.chance(1, 3) ? r.range(0, std::min(n - 1, hot)) : r.range(0, n - 1);
        T v = (T)r.range(-9, 9);
        if (collide && q % 2)
        {
            const int64_t wide = (int64_t)1 << 32; int64_t a = li, b = lj;
            switch (r.range(0, 5))
            {
                case 0: { const int64_t t = a * n + b + (a * n + b >= wide ? -wide : wide); a = t / n; b = t % n; break; }
                case 1: { const int64_t t = b * m + a + (b * m + a >= wide ? -wide : wide); b = t / m; a = t % m; break; }
                case 2: a = a >= 65536 ? a - 65536 : a + 65536; break;
                case 3: b = b >= 65536 ? b - 65536 : b + 65536; break;
                case 4: std::swap(a, b); break;
                default: ++a; --b; break;
            }
            if (a >= 0 && a < m && b >= 0 && b < n) { i = (int)a; j = (int)b; count("positions chosen to collide"); }
        }
        else if (collide) { i = r.range(0, r.chance(1, 2) ? 900 : m - 1); j = r.range(0, r.chance(1, 2) ? 900 : n - 1); }
        if (q == 0) { i = m - 1; j = n - 1; }
        li = i; lj = j;
        STEP("Add"); if (coo) C.Add(i, j, v); else L.Add(i, j, v);
        B.row[i][j] += v;
    }
    STEP("ToSparse");
    same_big(coo ? C.template ToSparse<T>() : L.template ToSparse<T>(), B, 1, nullptr, false, "large-assembly", "assembled");
    Dv x = gen_vec<double>(r, n, 0), y(m, 0.0), z(m, 4.0);
    for (int i = 0; i < m; ++i) for (auto& e : B.row[i]) y[i] += e.second * x[e.first];
    STEP("Mult"); const Operator& O = coo ? static_cast<const Operator&>(C) : L;
    Vector<double> Y(m, 3.0); O.Mult(Vector<double>(x), Y);
    for (int i = 0; i < m; ++i) CHECK(Y[i] == y[i], "large-assembly", "product entry %d is %.17g, expected %.17g", i, Y[i], y[i]);
    STEP("ToSparse again");
    same_big(coo ? C.template ToSparse<T>() : L.template ToSparse<T>(), B, 1, nullptr, false, "large-assembly", "assembled again");
}

// -------------------------------------------------------------------- dense
FAMILY(ldense, "large.dense", 0)
{
    Rng& r = c.r;
    int m = logsize(r, 20, 400), n = logsize(r, 20, 400), k = logsize(r, 2, 200);
    if (r.chance(1, 3)) { m = notable(r, 500, 3000); n = r.range(1, 12); }
    const int mode = r.range(0, 2), op = r.range(0, 5);
    c.nontrivial = true; c.mix(m); c.mix(n); c.mix(k); c.mix(op); c.describe("%dx%d, %d columns, op=%d", m, n, k, op);
    const char* key = "large-dense";
    Ref R = gen_ref(r, m, n, mode), G; DenseMatrix A = dense_of(R);
    if (op <= 3)
    {
        const bool at = op & 1, bt = op & 2;
        Ref Bm = bt ? gen_ref(r, k, at ? m : n, mode) : gen_ref(r, at ? m : n, k, mode);
        DenseMatrix B = dense_of(Bm), C = stale(r, 3, 4);
        Ref W = multiply(at ? transpose(R) : R, bt ? transpose(Bm) : Bm, &G);
        STEP(at ? bt ? "MultABT" : "MultAT" : bt ? "MultBT" : "Mult");
        if (at && bt) A.MultABT(B, C); else if (at) A.MultAT(B, C); else if (bt) A.MultBT(B, C); else A.Mult(B, C);
        same_values(ref_of(C), W, &G, m + n, key, current_step());
        Dv x = gen_vec<double>(r, at ? m : n, mode), g, y = matvec(at ? transpose(R) : R, x, &g);
        STEP("product with a vector"); cmp<double>(at ? A.MultAT(Vector<double>(x)) : A.Mult(Vector<double>(x)), y, g, m + n, key, "product with a vector");
        SpModel S(m, n); for (int q = 0; q < 3 * m; ++q) { int i = r.range(0, m - 1), j = r.range(0, n - 1); S.e[std::make_pair(i, j)] = gen_nz(r, mode); }
        SparseMatrix<double> Sp = build_csr<double>(r, S, true); Ref SR = S.dense();
        if (!bt)
        {
            W = multiply(at ? transpose(SR) : SR, Bm, &G); DenseMatrix D = stale(r, 2, 2);
            STEP("sparse times dense"); if (at) Sp.MultAT(B, D); else Sp.Mult(B, D);
            same_values(ref_of(D), W, &G, m + n, key, "sparse times dense");
        }
    }
    else if (op == 4)
    {
        int i0 = r.range(0, m - 1), i1 = r.range(i0 + 1, m), j0 = r.range(0, n - 1), j1 = r.range(j0 + 1, n);
        STEP("block"); DenseMatrix S = A.GetSubMatrix(i0, j0, i1, j1);
        Ref W(i1 - i0, j1 - j0); for (int i = 0; i < W.m; ++i) for (int j = 0; j < W.n; ++j) W(i, j) = R(i0 + i, j0 + j);
        same_values(ref_of(S), W, nullptr, 0, key, "block");
        DenseMatrix Z(m, n); Z = 0.0; Z.SetSubMatrix(i0, j0, S); Ref V(m, n); for (int i = i0; i < i1; ++i) for (int j = j0; j < j1; ++j) V(i, j) = R(i, j);
        same_values(ref_of(Z), V, nullptr, 0, key, "set block");
        STEP("Transpose"); same_values(ref_of(A.Transpose()), transpose(R), nullptr, 0, key, "transpose");
        STEP("rows and columns"); int i = r.range(0, m - 1), j = r.range(0, n - 1); Vector<double> row = A.GetRow(i), col = A.GetCol(j);
        for (int q = 0; q < n; ++q) CHECK(row[q] == R(i, q), key, "row entry %d", q);
        for (int q = 0; q < m; ++q) CHECK(col[q] == R(q, j), key, "column entry %d", q);
        STEP("stacked"); DenseMatrix H = HStack(std::vector<DenseMatrix>{A, S.Rows() == m ? S : A}); CHECK(H.Rows() == m && H(m - 1, n - 1) == R(m - 1, n - 1) && H(0, 0) == R(0, 0), key, "stacked");
    }
    else
    {
        long double s = 0, sa = 0; double mx = -1e300, mn = 1e300; for (double v : R.a) { s += v; sa += std::fabs(v); mx = std::max(mx, v); mn = std::min(mn, v); }
        STEP("reductions"); CHECK(near(A.Sum(), (double)s, (double)sa, (double)m * n) && A.Max() == mx && A.Min() == mn, key, "sum %.17g, expected %.17g", A.Sum(), (double)s);
        STEP("arithmetic"); DenseMatrix B = A + A; B -= A; CHECK(B == A, key, "A+A-A differs from A");
        B(m - 1, n - 1) += 1; CHECK(!(B == A), key, "a changed matrix compares equal");
    }
}
FAMILY(lfactor, "large.factor", 0)
{
    Rng& r = c.r;
    const int op = r.range(0, 3), n = op == 3 ? logsize(r, 30, 130) : op == 0 ? logsize(r, 30, 200) : r.range(1, 40), m = op == 0 || op == 3 ? n : logsize(r, n, 800);
    c.nontrivial = true; c.mix(m); c.mix(n); c.mix(op); c.describe("%dx%d op=%d", m, n, op);
    const char* key = "large-factor";
    Ref R(m, n); for (double& v : R.a) v = r.uniform(-1, 1);
    for (int i = 0; i < n; ++i) R(i, i) += (op == 0 ? 2 * std::sqrt((double)n) + 2 : 1.0) * (r.chance(1, 2) ? 1 : -1);
    if (op == 3) for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) R(i, j) = R(j, i);
    DenseMatrix A = dense_of(R);
    c.mixd(R(0, 0));
    if (op == 0)
    {
        STEP("Invert"); DenseMatrix X = stale(r, 2, 3); if (r.chance(1, 2)) A.Invert(X); else { X = A; X.Invert(); }
        Ref P = multiply(ref_of(X), R); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) CHECK(std::fabs(P(i, j) - (i == j)) <= 1e-8, key, "inverse: entry (%d,%d) of the product is %.17g", i, j, P(i, j));
    }
    else if (op == 1)
    {
        STEP("QR"); DenseMatrix Q; A.QR(Q); Ref Qr = ref_of(Q);
        CHECK(Qr.m == m && Qr.n == n, key, "QR of %dx%d is %dx%d", m, n, Qr.m, Qr.n);
        Ref I = multiply(transpose(Qr), Qr); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) CHECK(std::fabs(I(i, j) - (i == j)) <= 1e-9, key, "columns of Q are not orthonormal: (%d,%d) %.17g", i, j, I(i, j));
        Ref PA = multiply(Qr, multiply(transpose(Qr), R)); for (size_t q = 0; q < R.a.size(); ++q) CHECK(std::fabs(PA.a[q] - R.a[q]) <= 1e-8, key, "Q does not span A");
    }
    else if (op == 2)
    {
        STEP("SVD"); DenseMatrix U; Dv s = A.SVD(U);
        CHECK((int)s.size() == n, key, "%zu singular values", s.size());
        long double f = 0, t = 0; for (double v : R.a) f += (long double)v * v; for (size_t i = 0; i < s.size(); ++i) { t += (long double)s[i] * s[i]; CHECK(s[i] >= 0 && (!i || s[i] <= s[i - 1]), key, "singular values not ordered"); }
        CHECK(std::fabs((double)(f - t)) <= 1e-9 * (double)f, key, "sum of squares of the singular values is %.17g, of the entries %.17g", (double)t, (double)f);
        Ref Ur = ref_of(U); if (Ur.m == m && Ur.n >= n) for (int a = 0; a < n; ++a) { Dv u(m); for (int i = 0; i < m; ++i) u[i] = Ur(i, a); Dv w = matvec(transpose(R), u); double q = 0; for (double v : w) q += v * v; CHECK(std::fabs(std::sqrt(q) - s[a]) <= 1e-8 * (s[0] + 1), key, "|A^T u| is %.17g for singular value %.17g", std::sqrt(q), s[a]); }
    }
    else
    {
        STEP("EigenSolver"); EigenSolver S; if (r.chance(1, 2)) S.Solve(DenseMatrix(dense_of(Ref(5, 5))), 1.0, 3);
        const int k = r.chance(1, 2) ? -1 : r.range(1, n);
        EigenPair p = S.Solve(A, 1e300, k); const int got = p.second.Cols();
        long double tr = 0, ts = 0; for (int i = 0; i < n; ++i) tr += R(i, i); for (double v : p.first) ts += v;
        double nrm = R.maxabs() * n;
        if ((int)p.first.size() == n) CHECK(std::fabs((double)(tr - ts)) <= 1e-10 * nrm, key, "trace %.17g, sum of the eigenvalues %.17g", (double)tr, (double)ts);
        Ref V = ref_of(p.second);
        CHECK(V.m == n && got >= 1 && got <= (k < 0 ? n : k), key, "%d eigenvectors for max %d", got, k);
        for (int a = 0; a < got; ++a)
        {
            if (a) CHECK(p.first[a] >= p.first[a - 1], key, "eigenvalues not ascending");
            Dv v(n); for (int i = 0; i < n; ++i) v[i] = V(i, a); Dv w = matvec(R, v); double e = 0; for (int i = 0; i < n; ++i) { double d = w[i] - p.first[a] * v[i]; e += d * d; }
            CHECK(std::sqrt(e) <= 1e-10 * nrm, key, "residual %.3g of eigenpair %d", std::sqrt(e), a);
        }
        Ref I = multiply(transpose(V), V); for (int i = 0; i < got; ++i) for (int j = 0; j < got; ++j) CHECK(std::fabs(I(i, j) - (i == j)) <= 1e-9, key, "eigenvectors not orthonormal");
    }
}

// ------------------------------------------------------------------- blocks
FAMILY(lblock, "large.block", 0)
{
    Rng& r = c.r;
    const int nb = r.range(2, 9), mb = r.range(2, 9);
    std::vector<int> ro(1, 0), co(1, 0);
    for (int b = 0; b < nb; ++b) ro.push_back(ro.back() + (r.chance(1, 6) ? 0 : logsize(r, 5, 500)));
    for (int b = 0; b < mb; ++b) co.push_back(co.back() + (r.chance(1, 6) ? 0 : logsize(r, 5, 500)));
    const int m = ro.back(), n = co.back();
    c.nontrivial = true; c.mix(m); c.mix(n); c.describe("%dx%d blocks, %dx%d", nb, mb, m, n);
    Big W; W.m = m; W.n = n; W.row.resize(m);
    BlockMatrix<double> A(ro, co); BlockOperator O(ro, co);
    std::vector<std::unique_ptr<SparseMatrix<double>>> keep;
    for (int i = 0; i < nb; ++i) for (int j = 0; j < mb; ++j) if (r.chance(2, 3))
    {
        Big B = gen_big(r, ro[i + 1] - ro[i], co[j + 1] - co[j], 1, co[j + 1] - co[j] ? 4 : 0);
        if (!B.n) for (auto& q : B.row) q.clear();
        keep.emplace_back(new SparseMatrix<double>(csr<double>(r, B)));
        A.SetBlock(i, j, *keep.back()); O.SetBlock(i, j, *keep.back());
        for (int a = 0; a < B.m; ++a) for (auto& e : B.row[a]) W.row[ro[i] + a][co[j] + e.first] = e.second;
    }
    STEP("Combine"); same_big(A.Combine(), W, 1, nullptr, true, "large-block", "combined");
    STEP("Transpose"); same_big(A.Transpose().Combine(), flip(W), 1, nullptr, true, "large-block", "transposed and combined");
    for (int tr = 0; tr < 2; ++tr)
    {
        const Big& P = tr ? flip(W) : W;
        Dv x = gen_vec<double>(r, P.n, 1), y(P.m, 0), g(P.m, 0);
        for (int i = 0; i < P.m; ++i) for (auto& e : P.row[i]) { y[i] += e.second * x[e.first]; g[i] += std::fabs(e.second * x[e.first]); }
        for (int q = 0; q < 2; ++q)
        {
            const Operator& op = q ? static_cast<const Operator&>(O) : A;
            Vector<double> X(x), Y(P.m, NAN);
            STEP(tr ? "MultAT" : "Mult"); if (tr) op.MultAT(X, VectorView<double>(Y)); else op.Mult(X, VectorView<double>(Y));
            cmp<double>(Y, y, g, 3000, "large-block", q ? "operator" : "matrix");
        }
    }
}

// ------------------------------------------------------------------ solvers
Big laplacian(Rng& r, int s, double shift)
{
    const int n = s * s; Big B; B.m = B.n = n; B.row.resize(n); (void)r;
    for (int i = 0; i < n; ++i)
    {
        B.row[i][i] = 4 + shift;
        if (i % s) B.row[i][i - 1] = -1; if ((i + 1) % s) B.row[i][i + 1] = -1;
        if (i >= s) B.row[i][i - s] = -1; if (i + s < n) B.row[i][i + s] = -1;
    }
    return B;
}
Dv apply(const Big& B, const Dv& x) { Dv y(B.m); for (int i = 0; i < B.m; ++i) { long double s = 0; for (auto& e : B.row[i]) s += (long double)e.second * x[e.first]; y[i] = (double)s; } return y; }
double norm(const Dv& v) { long double s = 0; for (double x : v) s += (long double)x * x; return (double)std::sqrt(s); }
FAMILY(lkrylov, "large.krylov", 0)
{
    Rng& r = c.r;
    const int s = r.range(8, 45), n = s * s, kind = r.range(0, 3);
    Big B = laplacian(r, s, r.uniform(0.0, 1.0)); SparseMatrix<double> A = csr<double>(r, B);
    std::vector<double> d(n); for (double& v : d) v = 1.0 / r.uniform(3.5, 5.5); SparseMatrix<double> M(d);
    Dv b = gen_vec<double>(r, n, 2), x0(n, 0.0); if (r.chance(1, 2)) x0 = gen_vec<double>(r, n, 2);
    const double rel = std::pow(10.0, -r.range(3, 9)); const int lim = r.chance(1, 5) ? r.range(0, 20) : 3000;
    c.nontrivial = true; c.mix(n); c.mix(kind); c.mixd(rel); c.mixd(b[0]); c.describe("%s on %d unknowns, tolerance %g, limit %d", kind == 0 ? "CG" : kind == 1 ? "PCG" : kind == 2 ? "MINRES" : "PMINRES", n, rel, lim);
    std::unique_ptr<Solver> S;
    if (kind == 0) S.reset(new PCGSolver(A, lim, rel, 0.0)); else if (kind == 1) S.reset(new PCGSolver(A, M, lim, rel, 0.0)); else if (kind == 2) S.reset(new MINRESSolver(A, lim, rel, 0.0)); else S.reset(new PMINRESSolver(A, M, lim, rel, 0.0));
    Vector<double> X(x0), Bv(b);
    STEP("solve"); S->Mult(Bv, VectorView<double>(X.begin(), n));
    Dv x(X.begin(), X.end()), y = apply(B, x), y0 = apply(B, x0), e(n), e0(n);
    for (int i = 0; i < n; ++i) { e[i] = b[i] - y[i]; e0[i] = b[i] - y0[i]; }
    const bool prec = kind == 1 || kind == 3;
    if (prec) for (int i = 0; i < n; ++i) { e[i] *= std::sqrt(d[i]); e0[i] *= std::sqrt(d[i]); }
    const double got = norm(e), want = rel * norm(e0);
    for (double v : x) CHECK(std::isfinite(v), "large-krylov", "a value of the result is %g", v);
    CHECK(S->GetNumIterations() <= lim, "large-krylov", "%d iterations with a limit of %d", S->GetNumIterations(), lim);
    // rounding in the recurrences: a small multiple of eps * |A| * |x|
    if (S->GetNumIterations() < lim) CHECK(got <= want * (1 + 1e-6) + 1e-12 * (8 * norm(x) + norm(b)), "large-krylov", "stopped after %d of %d iterations with residual %.3g, tolerance %.3g", S->GetNumIterations(), lim, got, want);
    if (lim == 3000) CHECK(got <= want * 1.01 + 1e-11 * (8 * norm(x) + norm(b)), "large-krylov", "not solved in %d iterations: residual %.3g, tolerance %.3g", lim, got, want);
    for (int i = 0; i < n; ++i) CHECK(Bv[i] == b[i], "operand-changed", "the right-hand side changed");
    count("large systems solved");
}
FAMILY(ldirect, "large.direct", 0)
{
    Rng& r = c.r;
    const int n = notable(r, 100, 2500);
    Big B; B.m = B.n = n; B.row.resize(n);
    std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; if (r.chance(1, 2)) r.shuffle(p);
    for (int i = 0; i < n; ++i) { double s = 0; for (int q = r.range(0, 3); q > 0; --q) { int j = p[r.chance(1, 2) ? std::min(n - 1, std::max(0, i + r.range(-20, 20))) : r.range(0, n - 1)]; if (j == p[i] || B.row[i].count(j)) continue; double v = gen_nz(r, 2); B.row[i][j] = v; s += std::fabs(v); } B.row[i][p[i]] = (s + 1) * (r.chance(1, 2) ? 1 : -1); }
    SparseMatrix<double> A = csr<double>(r, B);
    c.nontrivial = true; c.mix(n); c.mix(A.nnz()); c.describe("%d unknowns, %d entries", n, A.nnz());
    STEP("SparseSolver"); SparseSolver S(A); SparseSolver T(S);
    for (int q = 0; q < 3; ++q)
    {
        const bool tr = q == 1; Dv b = gen_vec<double>(r, n, 2); Vector<double> Bv(b), X(n, NAN);
        const Operator& O = q == 2 ? T : S;
        STEP("solve"); if (tr) O.MultAT(Bv, VectorView<double>(X.begin(), n)); else O.Mult(Bv, VectorView<double>(X.begin(), n));
        Dv x(X.begin(), X.end()); const Big& P = tr ? flip(B) : B; Dv y = apply(P, x);
        for (int i = 0; i < n; ++i) { double g = std::fabs(b[i]); for (auto& e : P.row[i]) g += std::fabs(e.second * x[e.first]); CHECK(std::fabs(y[i] - b[i]) <= 1e-9 * g, "large-direct", "row %d: residual %.3g", i, y[i] - b[i]); }
    }
}

// ---------------------------------------------------------------- partition
FAMILY(lpart, "large.partition", 0)
{
    Rng& r = c.r;
    const int s = r.range(10, 60), n = s * s; Big B = laplacian(r, s, 0);
    const bool diag = r.chance(1, 2); if (!diag) for (int i = 0; i < n; ++i) B.row[i].erase(i);
    SparseMatrix<double> A = csr<double>(r, B);
    const int parts = r.chance(1, 6) ? n / r.range(2, 4) : logsize(r, 2, 90);
    const bool contig = r.chance(1, 2), weighted = r.chance(1, 2);
    c.nontrivial = true; c.mix(n); c.mix(parts); c.mix(contig + 2 * weighted + 4 * diag); c.describe("%d vertices, %d parts", n, parts);
    STEP("Partition"); std::vector<int> p = Partition<double>(A, parts, 1.2, contig, weighted), q = Partition<double>(A, parts, 1.2, contig, weighted);
    CHECK((int)p.size() == n && p == q, "large-partition", "%zu part numbers; repeated call %s", p.size(), p == q ? "agrees" : "differs");
    std::vector<long> cnt(parts, 0); for (int v : p) { CHECK(v >= 0 && v < parts, "large-partition", "part number %d of %d", v, parts); ++cnt[v]; }
    int k = *std::max_element(p.begin(), p.end()) + 1; for (int v = 0; v < k; ++v) CHECK(cnt[v] > 0, "large-partition", "part %d of %d is empty", v, k);
    CHECK(k > 1, "large-partition", "everything is in one part");
}

// -------------------------------------------------------------------- files
template <typename T>
void files(Ctx& c)
{
    Rng& r = c.r;
    const std::string f = std::string(scratch_dir()) + "/large";
    const int what = r.range(0, 7);
    c.nontrivial = true; c.mix(what);
    const char* key = "large-io";
    if (what <= 1)
    {
        const int n = notable(r, 500, 60000);
        std::vector<T> v(n); for (T& x : v) x = (T)gen_val(r, std::is_same<T, int>::value ? 0 : 3);
        c.mix(n); c.mixd((double)v[0]); c.describe("%d values, format %d", n, what);
        std::vector<T> w;
        STEP(what ? "binary vector" : "text vector"); if (what) { WriteBinary(v, f); w = ReadBinaryVect<T>(f); } else { WriteText(v, f); w = ReadText<T>(f); }
        CHECK(w == v, key, "%zu of %d values came back, or they differ", w.size(), n);
    }
    else
    {
        int m = notable(r, 60, 3000), n = what == 6 ? m : notable(r, 60, 3000);
        Big B = gen_big(r, m, n, std::is_same<T, int>::value ? 0 : 3, r.range(1, 9));
        B.row[m - 1][n - 1] = 2; // list formats carry no size
        if (what == 6) { for (int i = 0; i < m; ++i) for (auto& e : B.row[i]) if (e.first > i) B.row[e.first][i] = e.second; for (int i = 0; i < m; ++i) { auto q = B.row[i]; for (auto& e : q) B.row[e.first][i] = e.second; } for (int i = 0; i < m; ++i) for (auto& e : B.row[i]) e.second = B.row[std::min(i, e.first)][std::max(i, e.first)]; }
        SparseMatrix<T> A = csr<T>(r, B);
        c.mix(m); c.mix(n); c.mix(A.nnz()); c.describe("%dx%d, %d entries, format %d", m, n, A.nnz(), what);
        Big O = B; for (auto& q : O.row) for (auto& e : q) e.second = 1;
        STEP("matrix file");
        switch (what)
        {
            case 2: WriteBinary(A, f); same_big(ReadBinaryMat<T>(f), B, 0, nullptr, true, key, "binary matrix"); break;
            case 3: WriteCSR(A, f); same_big(ReadCSR<T>(f), B, 0, nullptr, true, key, "CSR"); break;
            case 4: WriteMTX(A, f); same_big(ReadMTX<T>(f), B, 0, nullptr, true, key, "Matrix Market"); break;
            case 5: WriteCooList(A, f); same_big(ReadCooList<T>(f), B, 0, nullptr, true, key, "coordinate"); break;
            case 6: WriteCooList(A, f, true); same_big(ReadCooList<T>(f, true), B, 0, nullptr, true, key, "symmetric coordinate"); break;
            default: if (r.chance(1, 2)) { WriteAdjList(A, f); same_big(ReadAdjList<T>(f), O, 0, nullptr, true, key, "adjacency"); } else { WriteTable(A, f); same_big(ReadTable<T>(f), O, 0, nullptr, true, key, "table"); } break;
        }
    }
    unlink(f.c_str());
}
}
FAMILY(lvd, "large.vector.double", 0) { vectors<double>(c); }
FAMILY(lvi, "large.vector.int", 0) { vectors<int>(c); }
FAMILY(lsd, "large.sparse.double", 0) { sparses<double>(c); }
FAMILY(lsi, "large.sparse.int", 0) { sparses<int>(c); }
FAMILY(lad, "large.assembly.double", 0) { assemblies<double>(c); }
FAMILY(lai, "large.assembly.int", 0) { assemblies<int>(c); }
FAMILY(lfd, "large.files.double", 0) { files<double>(c); }
FAMILY(lfi, "large.files.int", 0) { files<int>(c); }
