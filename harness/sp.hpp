// Sparse reference model and the structural monitor for compressed-row matrices.
#ifndef VERIF_SP_HPP
#define VERIF_SP_HPP
#include "gen.hpp"
#include "linalgcpp.hpp"

namespace vh
{
typedef std::map<std::pair<int, int>, double> Entries;
struct SpModel
{
    int m, n;
    Entries e;
    SpModel(int m_ = 0, int n_ = 0) : m(m_), n(n_) {}
    double get(int i, int j) const { Entries::const_iterator it = e.find(std::make_pair(i, j)); return it == e.end() ? 0.0 : it->second; }
    Ref dense() const { Ref R(m, n); for (auto& p : e) R(p.first.first, p.first.second) = p.second; return R; }
};

// density classes: empty, sparse, banded-ish, dense; optional explicit zeros
inline SpModel gen_sp(Ctx& c, int m, int n, int mode, bool zeros = true)
{
    Rng& r = c.r;
    SpModel A(m, n);
    if (m == 0 || n == 0) return A;
    int kind = r.range(0, 6);
    long target;
    if (kind == 0) target = 0;
    else if (kind == 1) target = r.range(0, 2);
    else if (kind <= 4) target = (long)r.range(1, 4) * m;
    else target = (long)m * n;
    if (target > 4000) target = 4000;
    auto put = [&](int i, int j) { A.e[std::make_pair(i, j)] = (zeros && r.chance(1, 12)) ? 0.0 : gen_nz(r, mode); };
    if (kind == 6 && (long)m * n <= 4000)
        for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { if (r.chance(9, 10)) put(i, j); }
    else if (kind == 5)
        for (int i = 0; i < std::min(m, n); ++i) { put(i, i); if (i + 1 < n && r.chance(1, 2)) put(i, i + 1); }
    else
        for (long k = 0; k < target; ++k) put(r.range(0, m - 1), r.range(0, n - 1));
    return A;
}

template <typename T>
linalgcpp::SparseMatrix<T> build_csr(Rng& r, const SpModel& A, bool shuffle)
{
    std::vector<int> ptr(1, 0), ind;
    std::vector<T> dat;
    std::vector<std::vector<std::pair<int, double>>> rows(A.m);
    for (auto& p : A.e) rows[p.first.first].push_back(std::make_pair(p.first.second, p.second));
    for (int i = 0; i < A.m; ++i)
    {
        if (shuffle) r.shuffle(rows[i]);
        for (auto& q : rows[i]) { ind.push_back(q.first); dat.push_back((T)q.second); }
        ptr.push_back((int)ind.size());
    }
    return linalgcpp::SparseMatrix<T>(ptr, ind, dat, A.m, A.n);
}

// The structural monitor. Everything the library hands out must satisfy it. Returns the entries.
template <typename T>
SpModel wellformed(const linalgcpp::SparseMatrix<T>& A, int m, int n, const char* what, bool allow_dup = false)
{
    const std::vector<int>& ptr = A.GetIndptr();
    const std::vector<int>& ind = A.GetIndices();
    const std::vector<T>& dat = A.GetData();
    count("monitor: CSR structure walked");
    CHECK(A.Rows() == m && A.Cols() == n, "wf-shape", "%s: shape %dx%d, expected %dx%d", what, A.Rows(), A.Cols(), m, n);
    CHECK((int)ptr.size() == m + 1, "wf-indptr", "%s: %zu row pointers for %d rows", what, ptr.size(), m);
    CHECK(ptr[0] == 0, "wf-indptr", "%s: first row pointer is %d", what, ptr[0]);
    for (int i = 0; i < m; ++i) CHECK(ptr[i] <= ptr[i + 1], "wf-indptr", "%s: row pointer decreases at row %d: %d then %d", what, i, ptr[i], ptr[i + 1]);
    CHECK(ptr[m] == (int)ind.size() && ind.size() == dat.size() && A.nnz() == (int)dat.size(), "wf-count", "%s: last row pointer %d, %zu indices, %zu values, nnz %d", what, ptr[m], ind.size(), dat.size(), A.nnz());
    SpModel M(m, n);
    for (int i = 0; i < m; ++i)
    {
        CHECK(A.RowSize(i) == ptr[i + 1] - ptr[i], "wf-rowsize", "%s: RowSize(%d)", what, i);
        for (int k = ptr[i]; k < ptr[i + 1]; ++k)
        {
            CHECK(ind[k] >= 0 && ind[k] < n, "wf-column", "%s: column %d in row %d of a matrix with %d columns", what, ind[k], i, n);
            std::pair<int, int> key(i, ind[k]);
            if (!allow_dup) CHECK(!M.e.count(key), "wf-duplicate", "%s: entry (%d,%d) stored twice", what, i, ind[k]);
            M.e[key] += (double)dat[k];
        }
    }
    return M;
}

inline void same_values(const Ref& got, const Ref& want, const Ref* mag, double k, const char* key, const char* what)
{
    CHECK(got.m == want.m && got.n == want.n, key, "%s: shape %dx%d expected %dx%d", what, got.m, got.n, want.m, want.n);
    for (int i = 0; i < want.m; ++i)
        for (int j = 0; j < want.n; ++j)
            CHECK(near(got(i, j), want(i, j), mag ? (*mag)(i, j) : std::fabs(want(i, j)), k), key, "%s: entry (%d,%d) is %.17g, expected %.17g", what, i, j, got(i, j), want(i, j));
}
inline void same_sp(const SpModel& got, const SpModel& want, const char* key, const char* what, bool pattern = true)
{
    CHECK(got.m == want.m && got.n == want.n, key, "%s: shape %dx%d expected %dx%d", what, got.m, got.n, want.m, want.n);
    for (auto& p : want.e)
    {
        if (pattern) CHECK(got.e.count(p.first), key, "%s: stored entry (%d,%d) is missing", what, p.first.first, p.first.second);
        double g = got.get(p.first.first, p.first.second);
        CHECK(near(g, p.second, std::fabs(p.second), 4), key, "%s: entry (%d,%d) is %.17g, expected %.17g", what, p.first.first, p.first.second, g, p.second);
    }
    for (auto& p : got.e)
        if (!want.e.count(p.first)) CHECK(!pattern && p.second == 0.0, key, "%s: entry (%d,%d)=%.17g should not be there", what, p.first.first, p.first.second, p.second);
}
inline Ref ref_of(const linalgcpp::DenseMatrix& D)
{
    Ref R(D.Rows(), D.Cols());
    for (int i = 0; i < R.m; ++i) for (int j = 0; j < R.n; ++j) R(i, j) = D(i, j);
    return R;
}
inline linalgcpp::DenseMatrix dense_of(const Ref& R)
{
    linalgcpp::DenseMatrix D(R.m, R.n);
    for (int i = 0; i < R.m; ++i) for (int j = 0; j < R.n; ++j) D(i, j) = R(i, j);
    return D;
}
inline Ref gen_ref(Rng& r, int m, int n, int mode)
{
    Ref R(m, n);
    for (double& v : R.a) v = gen_val(r, mode);
    return R;
}
// a result holder that already contains unrelated values (NaN included) and an unrelated shape
inline linalgcpp::DenseMatrix stale(Rng& r, int m, int n)
{
    int a = m, b = n;
    int k = r.range(0, 4);
    if (k == 0) { a = 0; b = 0; }
    if (k == 1) { a = r.range(0, 9); b = r.range(0, 9); }
    if (k == 2) { a = n; b = m; }
    linalgcpp::DenseMatrix D(a, b);
    double v = r.chance(1, 2) ? std::numeric_limits<double>::quiet_NaN() : 7.5;
    for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) D(i, j) = v;
    return D;
}
template <typename T>
linalgcpp::Vector<T> stale_vec(Rng& r, int n, bool resize_ok)
{
    int k = resize_ok ? (r.chance(1, 2) ? n : r.range(0, 12)) : n;
    T v = (T)7;
    if (std::numeric_limits<T>::has_quiet_NaN && r.chance(1, 2)) v = std::numeric_limits<T>::quiet_NaN();
    return linalgcpp::Vector<T>(k, v);
}
} // namespace vh
#endif
