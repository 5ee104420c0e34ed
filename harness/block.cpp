// Blocked vectors, matrices and operators against their assembled whole (C14).
#include "sp.hpp"
using namespace linalgcpp;
using namespace vh;

namespace
{
const char* KEY = "block";

std::vector<int> gen_offsets(Ctx& c, int maxblocks)
{
    Rng& r = c.r;
    int nb = r.range(0, maxblocks);
    std::vector<int> o(1, 0);
    for (int b = 0; b < nb; ++b) o.push_back(o.back() + (r.chance(1, 5) ? 0 : r.range(1, c.big ? 40 : 7)));
    return o;
}

template <typename T>
void block_matrix(Ctx& c)
{
    Rng& r = c.r;
    const int mode = std::is_same<T, int>::value ? 0 : r.range(0, 2);
    std::vector<int> ro = gen_offsets(c, 4), co = r.chance(1, 3) ? ro : gen_offsets(c, 4);
    int m = ro.back(), n = co.back(), rb = (int)ro.size() - 1, cb = (int)co.size() - 1;
    BlockMatrix<T> A;
    if (ro == co && r.chance(1, 2)) A = BlockMatrix<T>(ro); else A = BlockMatrix<T>(ro, co);
    std::map<std::pair<int, int>, SpModel> blocks;
    c.describe("%dx%d in %dx%d blocks", m, n, rb, cb);
    c.mix(m); c.mix(n); c.mix(rb * 16 + cb);
    int sets = r.range(0, rb * cb + 2);
    for (int s = 0; s < sets && rb && cb; ++s)
    {
        int i = r.range(0, rb - 1), j = r.range(0, cb - 1);
        SpModel B = gen_sp(c, ro[i + 1] - ro[i], co[j + 1] - co[j], mode);
        c.mix(i * 8 + j); c.mix(B.e.size());
        STEP("SetBlock"); A.SetBlock(i, j, build_csr<T>(r, B, true));
        blocks[std::make_pair(i, j)] = B;
    }
    if (r.chance(1, 4))
    {
        STEP("copy/move"); BlockMatrix<T> C(A); BlockMatrix<T> D(std::move(C)); BlockMatrix<T> E; swap(D, E); A = E;
    }
    c.nontrivial = blocks.size() > 1 && m > 1 && n > 1;
    SpModel W(m, n);
    for (auto& b : blocks) for (auto& p : b.second.e) W.e[std::make_pair(ro[b.first.first] + p.first.first, co[b.first.second] + p.first.second)] = p.second;
    STEP("shape");
    CHECK(A.Rows() == m && A.Cols() == n, KEY, "block matrix is %dx%d, blocks sum to %dx%d", A.Rows(), A.Cols(), m, n);
    CHECK(A.GetRowOffsets() == ro && A.GetColOffsets() == co, KEY, "offsets changed");
    STEP("GetBlock");
    for (auto& b : blocks)
    {
        const SparseMatrix<T>& G = A.GetBlock(b.first.first, b.first.second);
        same_sp(wellformed(G, b.second.m, b.second.n, "GetBlock"), b.second, KEY, "GetBlock");
    }
    STEP("Combine");
    SparseMatrix<T> C = A.Combine();
    same_sp(wellformed(C, m, n, "Combine"), W, KEY, "Combine");
    STEP("Transpose");
    BlockMatrix<T> At = A.Transpose();
    CHECK(At.Rows() == n && At.Cols() == m && At.GetRowOffsets() == co && At.GetColOffsets() == ro, KEY, "transpose is %dx%d", At.Rows(), At.Cols());
    SpModel Wt(n, m); for (auto& p : W.e) Wt.e[std::make_pair(p.first.second, p.first.first)] = p.second;
    same_sp(wellformed(At.Combine(), n, m, "Transpose().Combine"), Wt, KEY, "Transpose");
    for (auto& b : blocks)
    {
        if (b.second.m == 0 || b.second.n == 0) continue;
        SpModel bt(b.second.n, b.second.m); for (auto& p : b.second.e) bt.e[std::make_pair(p.first.second, p.first.first)] = p.second;
        same_sp(wellformed(At.GetBlock(b.first.second, b.first.first), bt.m, bt.n, "transposed block"), bt, KEY, "transposed block");
    }
    Ref R = W.dense();
    for (int tr = 0; tr < 2; ++tr)
    {
        std::vector<double> x = gen_vec<double>(r, tr ? m : n, std::min(mode + 1, 2)), g, w = matvec(tr ? transpose(R) : R, x, &g);
        int len = tr ? n : m;
        const Operator& op = A;
        auto cmp = [&](const VectorView<double>& y, const char* what)
        {
            CHECK(y.size() == len, KEY, "%s: size", what);
            for (int i = 0; i < len; ++i) CHECK(near(y[i], w[i], g[i], m + n), KEY, "%s: entry %d is %.17g, expected %.17g", what, i, y[i], w[i]);
        };
        Vector<double> X(x);
        STEP(tr ? "MultAT" : "Mult");
        cmp(tr ? op.MultAT(X) : op.Mult(X), tr ? "A^T x" : "A x");
        Vector<double> y = stale_vec<double>(r, len, true);
        if (tr) op.MultAT(X, y); else A.Mult(X, y);
        cmp(y, tr ? "A^T x into a vector" : "A x into a vector");
        std::vector<double> buf(len + 2, std::numeric_limits<double>::quiet_NaN()); buf.front() = buf.back() = 2.5;
        VectorView<double> v(buf.data() + 1, len);
        if (tr) A.MultAT(X, v); else A.Mult(X, v);
        cmp(v, tr ? "A^T x into a view" : "A x into a view");
        CHECK(buf.front() == 2.5 && buf.back() == 2.5, KEY, "product wrote outside its output");
        // the transposed object acts as the transpose
        cmp(tr ? At.Mult(X) : static_cast<const Operator&>(At).MultAT(X), "product through the transposed object");
    }
    STEP("operands unchanged");
    same_sp(wellformed(A.Combine(), m, n, "Combine again"), W, KEY, "the matrix changed during products");
    STEP("Print");
    std::ostringstream os; A.PrintDense("label", os); if ((int)blocks.size() == rb * cb) A.Print("label", os);
}
FAMILY(bmd, "block.matrix.double") { block_matrix<double>(c); }
FAMILY(bmi, "block.matrix.int") { block_matrix<int>(c); }

FAMILY(bop, "block.operator")
{
    Rng& r = c.r;
    std::vector<int> ro = gen_offsets(c, 4), co = r.chance(1, 3) ? ro : gen_offsets(c, 4);
    int m = ro.back(), n = co.back(), rb = (int)ro.size() - 1, cb = (int)co.size() - 1;
    BlockOperator A0(ro, co);
    std::unique_ptr<BlockOperator> alt;
    if (ro == co && r.chance(1, 2)) alt.reset(new BlockOperator(ro));
    BlockOperator& A = alt ? *alt : A0;
    Ref R(m, n);
    std::vector<std::unique_ptr<Operator>> pool; // owners of the blocks
    std::map<std::pair<int, int>, const Operator*> where;
    c.describe("%dx%d in %dx%d blocks", m, n, rb, cb);
    c.mix(m); c.mix(n);
    int sets = r.range(0, rb * cb + 2);
    for (int s = 0; s < sets && rb && cb; ++s)
    {
        int i = r.range(0, rb - 1), j = r.range(0, cb - 1);
        int bm = ro[i + 1] - ro[i], bn = co[j + 1] - co[j];
        int kind = r.range(0, 3);
        SpModel B = gen_sp(c, bm, bn, 1);
        Operator* op = nullptr;
        if (kind == 0) op = new SparseMatrix<double>(build_csr<double>(r, B, true));
        else if (kind == 1) op = new DenseMatrix(dense_of(B.dense()));
        else if (kind == 2)
        {
            CooMatrix<double>* C = new CooMatrix<double>(bm, bn);
            for (auto& p : B.e) C->Add(p.first.first, p.first.second, p.second);
            op = C;
        }
        else
        {
            BlockMatrix<double>* C = new BlockMatrix<double>(std::vector<int>{0, bm}, std::vector<int>{0, bn});
            if (bm && bn) C->SetBlock(0, 0, build_csr<double>(r, B, true));
            op = C;
        }
        pool.emplace_back(op);
        STEP("SetBlock"); A.SetBlock(i, j, *op);
        where[std::make_pair(i, j)] = op;
        Ref D = B.dense();
        for (int a = 0; a < bm; ++a) for (int b = 0; b < bn; ++b) R(ro[i] + a, co[j] + b) = D(a, b);
        c.mix(kind); c.mix(B.e.size());
        // the same operator object may sit in several positions
        if (r.chance(1, 4) && rb > 1)
        {
            int k = r.range(0, rb - 1);
            if (ro[k + 1] - ro[k] == bm)
            {
                A.SetBlock(k, j, *op); where[std::make_pair(k, j)] = op;
                for (int a = 0; a < bm; ++a) for (int b = 0; b < bn; ++b) R(ro[k] + a, co[j] + b) = D(a, b);
            }
        }
    }
    c.nontrivial = where.size() > 1 && m > 1 && n > 1;
    CHECK(A.Rows() == m && A.Cols() == n && A.GetRowOffsets() == ro && A.GetColOffsets() == co, KEY, "block operator is %dx%d", A.Rows(), A.Cols());
    for (int i = 0; i < rb; ++i) for (int j = 0; j < cb; ++j)
    {
        auto it = where.find(std::make_pair(i, j));
        CHECK(A.GetBlock(i, j) == (it == where.end() ? nullptr : it->second), KEY, "GetBlock(%d,%d) is not the operator set there", i, j);
    }
    BlockOperator copy(A);
    BlockOperator moved(std::move(copy));
    BlockOperator swapped; swap(swapped, moved);
    std::vector<int> outer_r{0, m, m + 2}, outer_c{0, n};
    BlockOperator nested(outer_r, outer_c); nested.SetBlock(0, 0, A);
    for (int rep = 0; rep < 2; ++rep)
    for (int tr = 0; tr < 2; ++tr)
    {
        std::vector<double> x = gen_vec<double>(r, tr ? m : n, 1), g, w = matvec(tr ? transpose(R) : R, x, &g);
        int len = tr ? n : m;
        Vector<double> X(x);
        auto cmp = [&](const VectorView<double>& y, const char* what)
        {
            CHECK(y.size() == len, KEY, "%s: size", what);
            for (int i = 0; i < len; ++i) CHECK(near(y[i], w[i], g[i], m + n), KEY, "%s: entry %d is %.17g, expected %.17g", what, i, y[i], w[i]);
        };
        const Operator& op = rep ? static_cast<const Operator&>(swapped) : A;
        STEP(tr ? "MultAT" : "Mult");
        cmp(tr ? op.MultAT(X) : op.Mult(X), tr ? "A^T x" : "A x");
        Vector<double> y = stale_vec<double>(r, len, true);
        if (tr) op.MultAT(X, y); else op.Mult(X, y);
        cmp(y, "into a vector");
        std::vector<double> buf(len + 2, std::numeric_limits<double>::quiet_NaN()); buf.front() = buf.back() = 2.5;
        VectorView<double> v(buf.data() + 1, len);
        if (tr) op.MultAT(X, v); else op.Mult(X, v);
        cmp(v, "into a view");
        CHECK(buf.front() == 2.5 && buf.back() == 2.5, KEY, "product wrote outside its output");
        for (int i = 0; i < X.size(); ++i) CHECK(X[i] == x[i], KEY, "the input changed");
        if (m == n && !tr)
        {
            // the output may be the input's storage: operators copy first
            Vector<double> z(x); op.Mult(z, VectorView<double>(z.begin(), z.size()));
            cmp(z, "in place");
        }
        // blocks inside blocks
        if (tr == 0)
        {
            Vector<double> q = nested.Mult(X);
            CHECK(q.size() == m + 2 && (q[m] == 0 && q[m + 1] == 0), KEY, "unset block is not zero");
            Vector<double> q2(m); for (int i = 0; i < m; ++i) q2[i] = q[i];
            cmp(q2, "nested");
        }
        else
        {
            std::vector<double> x2(x); x2.push_back(5); x2.push_back(6);
            cmp(static_cast<const Operator&>(nested).MultAT(Vector<double>(x2)), "nested transpose");
        }
    }
}

FAMILY(bvec, "block.vector")
{
    Rng& r = c.r;
    std::vector<int> o = gen_offsets(c, 6);
    int n = o.back(), nb = (int)o.size() - 1;
    c.describe("length %d in %d blocks", n, nb); c.mix(n); c.mix(nb);
    c.nontrivial = nb > 1;
    std::vector<double> v(n, 0.0);
    STEP("construct");
    BlockVector<double> B(o);
    CHECK(B.size() == n && B.GetOffsets() == o, KEY, "block vector has size %d, blocks sum to %d", B.size(), n);
    int w = r.range(0, 2);
    if (w == 0) { B = BlockVector<double>(o, 2.25); v.assign(n, 2.25); }
    if (w == 1) { v = gen_vec<double>(r, n, 2); B = BlockVector<double>(Vector<double>(v), o); }
    if (w == 2) { v = gen_vec<double>(r, n, 2); for (int i = 0; i < n; ++i) B[i] = v[i]; }
    auto all = [&](const BlockVector<double>& X, const char* what)
    {
        CHECK(X.size() == n && X.GetOffsets() == o, KEY, "%s: size or offsets changed", what);
        for (int i = 0; i < n; ++i) CHECK(X[i] == v[i], KEY, "%s: entry %d is %.17g, expected %.17g", what, i, X[i], v[i]);
        for (int b = 0; b < nb; ++b)
        {
            const VectorView<double>& q = X.GetBlock(b);
            CHECK(q.size() == o[b + 1] - o[b], KEY, "%s: block %d has size %d", what, b, q.size());
            for (int i = 0; i < q.size(); ++i) CHECK(q[i] == v[o[b] + i], KEY, "%s: block %d entry %d", what, b, i);
        }
    };
    all(B, "constructed");
    for (int s = 0; s < 4; ++s)
    {
        int op = r.range(0, 6); c.mix(op);
        if (op <= 2 && nb)
        {
            int b = r.range(0, nb - 1);
            VectorView<double> q = B.GetBlock(b);
            STEP("write block");
            if (op == 0) { q = 1.5; for (int i = o[b]; i < o[b + 1]; ++i) v[i] = 1.5; }
            if (op == 1) { q *= 2.0; for (int i = o[b]; i < o[b + 1]; ++i) v[i] *= 2; }
            if (op == 2) { std::vector<double> z = gen_vec<double>(r, q.size(), 2); q = Vector<double>(z); for (int i = 0; i < q.size(); ++i) v[o[b] + i] = z[i]; }
        }
        if (op == 3) { STEP("write owner"); B *= 0.5; for (double& x : v) x *= 0.5; }
        if (op == 4) { STEP("assign"); std::vector<double> z = gen_vec<double>(r, n, 2); B = Vector<double>(z); v = z; }
        if (op == 5) { STEP("assign scalar"); B = 3.0; v.assign(n, 3.0); }
        if (op == 6)
        {
            STEP("copy/move/swap");
            BlockVector<double> C(B); all(C, "copy"); BlockVector<double> D(std::move(C)); all(D, "moved"); BlockVector<double> E; E = D; all(E, "assigned");
            BlockVector<double> F; swap(F, E); all(F, "swapped");
            if (n) { B[0] += 1; all(F, "copy after a change of the source"); B[0] -= 1; v[0] = B[0]; }
        }
        all(B, "after the write");
    }
}
} // namespace
