// Long pipelines over a pool of sparse matrices (C06): every matrix the library hands out becomes an
// input of later constructions, products, conversions, extractions, edits, writers and readers, and
// the structure of every result is walked. Values are followed as well (dense references), so that a
// wrong entry found only after several steps is seen too.
#include "sp.hpp"
#include <unistd.h>
using namespace linalgcpp;
using namespace vh;

namespace
{
template <typename T> struct Slot { SparseMatrix<T> A; Ref R; };
// exact integers throughout: dense values never need a tolerance
template <typename T>
void put(Slot<T>& s, SparseMatrix<T> A, const Ref& R, const char* what)
{
    SpModel G = wellformed(A, R.m, R.n, what);
    Ref D = G.dense();
    for (int i = 0; i < R.m; ++i) for (int j = 0; j < R.n; ++j) CHECK(D(i, j) == R(i, j), "pipeline-value", "%s: entry (%d,%d) is %g, expected %g", what, i, j, D(i, j), R(i, j));
    s.A = std::move(A); s.R = R;
}
double biggest(const Ref& R) { double b = 0; for (double v : R.a) b = std::max(b, std::fabs(v)); return b; }
Ref mul(const Ref& A, const Ref& B)
{
    Ref C(A.m, B.n);
    for (int i = 0; i < A.m; ++i) for (int k = 0; k < A.n; ++k) if (A(i, k) != 0) for (int j = 0; j < B.n; ++j) C(i, j) += A(i, k) * B(k, j);
    return C;
}
template <typename T>
Slot<T> fresh(Ctx& c, int m, int n)
{
    Rng& r = c.r; Slot<T> s;
    SpModel M = gen_sp(c, m, n, 0);
    int how = r.range(0, 5);
    if (how == 0) { STEP("construct from arrays"); put(s, build_csr<T>(r, M, r.chance(1, 2)), M.dense(), "constructed"); }
    else if (how == 1)
    {
        CooMatrix<T> C(m, n); Ref R(m, n);
        for (int q = 0; q < 2; ++q) for (auto& p : M.e) if (q == 0 || r.chance(1, 3)) { C.Add(p.first.first, p.first.second, (T)p.second); R(p.first.first, p.first.second) += p.second; }
        STEP("CooMatrix::ToSparse"); put(s, C.template ToSparse<T>(), R, "coo");
        if (r.chance(1, 2)) { C.Add(0, n - 1, (T)3); R(0, n - 1) += 3; STEP("CooMatrix::ToSparse again"); put(s, C.template ToSparse<T>(), R, "coo again"); }
    }
    else if (how == 2)
    {
        LilMatrix<T> L(m, n); Ref R(m, n);
        for (int q = 0; q < 2; ++q) for (auto& p : M.e) if (q == 0 || r.chance(1, 3)) { L.Add(p.first.first, p.first.second, (T)p.second); R(p.first.first, p.first.second) += p.second; }
        STEP("LilMatrix::ToSparse"); put(s, L.template ToSparse<T>(), R, "lil");
        if (r.chance(1, 2)) { L.Add(m - 1, 0, (T)2); R(m - 1, 0) += 2; STEP("LilMatrix::ToSparse again"); put(s, L.template ToSparse<T>(), R, "lil again"); }
    }
    else if (how == 3) { STEP("construct empty"); put(s, SparseMatrix<T>(m, n), Ref(m, n), "empty"); }
    else if (how == 4 && m == n) { std::vector<T> d = gen_vec<T>(r, n, 0); Ref R(n, n); for (int i = 0; i < n; ++i) R(i, i) = d[i]; STEP("construct diagonal"); put(s, SparseMatrix<T>(d), R, "diagonal"); }
    else
    {
        // assembled over undeclared sizes
        CooMatrix<T> C; Ref R(m, n);
        for (auto& p : M.e) { C.Add(p.first.first, p.first.second, (T)p.second); R(p.first.first, p.first.second) += p.second; }
        C.Add(m - 1, n - 1, (T)1); R(m - 1, n - 1) += 1;
        STEP("CooMatrix::ToSparse undeclared"); put(s, C.template ToSparse<T>(), R, "coo undeclared");
    }
    return s;
}
template <typename T>
void pipeline(Ctx& c)
{
    Rng& r = c.r;
    const int N = r.range(2, 4);
    std::vector<int> dims(N); for (int& d : dims) d = std::min(c.size(1), 60);
    std::vector<Slot<T>> pool; for (int i = 0; i < N; ++i) pool.push_back(fresh<T>(c, dims[r.range(0, N - 1)], dims[r.range(0, N - 1)]));
    std::vector<int> marker(200, -1);
    const int nops = r.range(4, c.thorough ? 60 : 22);
    std::string f = std::string(scratch_dir()) + "/pipe";
    c.describe("%d matrices:", N); for (auto& s : pool) c.describe(" %dx%d", s.R.m, s.R.n); c.describe("; ops");
    bool any = false;
    for (int o = 0; o < nops; ++o)
    {
        Slot<T>& a = pool[r.range(0, N - 1)]; Slot<T>& t = pool[r.range(0, N - 1)];
        const int m = a.R.m, n = a.R.n; int op = r.range(0, 19);
        c.mix(op); c.mix(a.A.nnz()); c.describe(" %d", op); any = any || a.A.nnz() > 1;
        auto whole = [&](const char* what) { put(a, SparseMatrix<T>(a.A), Ref(a.R), what); };
        switch (op)
        {
            case 0: case 1:
            {
                std::vector<int> fit; for (int i = 0; i < N; ++i) if (pool[i].R.m == n) fit.push_back(i);
                if (fit.empty()) { pool[r.range(0, N - 1)] = fresh<T>(c, n, dims[r.range(0, N - 1)]); break; }
                Slot<T>& b = pool[r.pick(fit)]; Ref R = mul(a.R, b.R);
                if (biggest(R) > 1e6) { pool[r.range(0, N - 1)] = fresh<T>(c, dims[0], dims[1]); break; }
                if (op == 0) { STEP("product"); put(t, a.A.template Mult<T, T>(b.A), R, "product"); }
                else { STEP("product with marker"); std::vector<int> mk(b.R.n + r.range(0, 3), r.chance(1, 2) ? -1 : 7); put(t, a.A.template Mult<T, T>(b.A, mk), R, "product with marker"); }
                break;
            }
            case 2: { Ref R(n, m); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) R(j, i) = a.R(i, j); STEP("Transpose"); put(t, a.A.Transpose(), R, "transpose"); break; }
            case 3: case 4:
            {
                std::vector<int> I(m), J(n); for (int i = 0; i < m; ++i) I[i] = i; for (int j = 0; j < n; ++j) J[j] = j;
                r.shuffle(I); r.shuffle(J); I.resize(r.range(1, m)); J.resize(r.range(1, n));
                if (r.chance(1, 2)) std::sort(J.begin(), J.end());
                Ref R((int)I.size(), (int)J.size()); for (int i = 0; i < R.m; ++i) for (int j = 0; j < R.n; ++j) R(i, j) = a.R(I[i], J[j]);
                if (op == 3) { STEP("GetSubMatrix"); put(t, a.A.GetSubMatrix(I, J), R, "submatrix"); } else { STEP("GetSubMatrix(marker)"); put(t, a.A.GetSubMatrix(I, J, marker), R, "submatrix with marker"); }
                break;
            }
            case 5: STEP("EliminateZeros"); a.A.EliminateZeros(); whole("zeros eliminated"); break;
            case 6: STEP("SortIndices"); a.A.SortIndices(); whole("sorted"); break;
            case 7: { std::vector<int> p(n); for (int j = 0; j < n; ++j) p[j] = j; r.shuffle(p); Ref R(m, n); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) R(i, p[j]) = a.R(i, j); STEP("PermuteCols"); a.A.PermuteCols(p); put(a, SparseMatrix<T>(a.A), R, "columns permuted"); break; }
            case 8: { int i = r.range(0, m - 1); STEP("EliminateRow"); a.A.EliminateRow(i); for (int j = 0; j < n; ++j) a.R(i, j) = 0; whole("row eliminated"); break; }
            case 9: { int j = r.range(0, n - 1); STEP("EliminateCol"); a.A.EliminateCol(j); for (int i = 0; i < m; ++i) a.R(i, j) = 0; whole("column eliminated"); break; }
            case 10:
            {
                // round trip through the triplet formats
                bool lil = r.chance(1, 2); CooMatrix<T> C(m, n); LilMatrix<T> L(m, n);
                const SparseMatrix<T>& A = a.A;
                for (int i = 0; i < m; ++i) { std::vector<int> I = A.GetIndices(i); std::vector<T> D = A.GetData(i); for (size_t k = 0; k < I.size(); ++k) if (lil) L.Add(i, I[k], D[k]); else C.Add(i, I[k], D[k]); }
                STEP("through triplets"); if (lil) put(t, L.template ToSparse<T>(), Ref(a.R), "lil round trip"); else put(t, C.template ToSparse<T>(), Ref(a.R), "coo round trip");
                break;
            }
            case 11: case 12:
            {
                // cut into blocks, combine, transpose, take a block back
                std::vector<int> ro(1, 0), co(1, 0);
                while (ro.back() < m) ro.push_back(std::min(m, ro.back() + r.range(r.chance(1, 6) ? 0 : 1, m)));
                while (co.back() < n) co.push_back(std::min(n, co.back() + r.range(r.chance(1, 6) ? 0 : 1, n)));
                BlockMatrix<T> B(ro, co);
                for (size_t p = 0; p + 1 < ro.size(); ++p) for (size_t q = 0; q + 1 < co.size(); ++q)
                {
                    std::vector<int> I, J; for (int i = ro[p]; i < ro[p + 1]; ++i) I.push_back(i); for (int j = co[q]; j < co[q + 1]; ++j) J.push_back(j);
                    STEP("GetSubMatrix for a block"); SparseMatrix<T> S = a.A.GetSubMatrix(I, J); wellformed(S, (int)I.size(), (int)J.size(), "block cut out");
                    if (S.nnz() || r.chance(1, 2)) B.SetBlock((int)p, (int)q, std::move(S));
                }
                if (op == 11) { STEP("Combine"); put(t, B.Combine(), Ref(a.R), "combined"); }
                else { Ref R(n, m); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) R(j, i) = a.R(i, j); STEP("blocks transposed, combined"); put(t, B.Transpose().Combine(), R, "combined transpose"); }
                break;
            }
            case 13: case 14:
            {
                int fmt = r.range(0, 6); const SparseMatrix<T>& A = a.A; ::unlink(f.c_str());
                SparseMatrix<T> B; Ref R(a.R); bool corner = m && n && a.R(m - 1, n - 1) != 0; // list formats carry no sizes
                if (fmt == 0) { STEP("WriteCSR ReadCSR"); WriteCSR(A, f); B = ReadCSR<T>(f); }
                else if (fmt == 1) { STEP("WriteMTX ReadMTX"); WriteMTX(A, f); B = ReadMTX<T>(f); }
                else if (fmt == 2 && corner) { STEP("WriteCooList ReadCooList"); WriteCooList(A, f); B = ReadCooList<T>(f); }
                else if (fmt == 3) { SparseMatrix<double> D = A.template Transpose<double>().template Transpose<double>(); STEP("WriteBinary ReadBinaryMat"); WriteBinary(D, f); SparseMatrix<double> E = ReadBinaryMat<double>(f); wellformed(E, m, n, "binary"); B = E.template Transpose<T>().template Transpose<T>(); }
                else break;
                put(t, std::move(B), R, current_step());
                break;
            }
            case 15: { T s = (T)r.range(-1, 2); STEP("A*=s"); a.A *= s; for (double& v : a.R.a) v = v * s + 0.0; if (biggest(a.R) > 1e6) { a = fresh<T>(c, m, n); break; } whole("scaled"); break; }
            case 16: { std::vector<int> mk(std::max(m, n), 0); for (int& v : mk) v = r.chance(1, 4); STEP("EliminateCol(marker)"); a.A.EliminateCol(mk); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) if (mk[j]) a.R(i, j) = 0; whole("marked columns eliminated"); break; }
            case 17: { STEP("copy, move, swap"); SparseMatrix<T> x(a.A), y(std::move(x)), z; swap(y, z); Ref R(a.R); x = z; put(t, std::move(x), R, "copied, moved, swapped"); break; }
            case 18: { DenseMatrix D = a.A.ToDense(); CooMatrix<T> C(m, n); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) if (D(i, j) != 0) C.Add(i, j, (T)D(i, j)); STEP("through dense"); put(t, C.template ToSparse<T>(), Ref(a.R), "dense round trip"); break; }
            case 19: t = fresh<T>(c, dims[r.range(0, N - 1)], dims[r.range(0, N - 1)]); break;
        }
        for (auto& s : pool) if (r.chance(1, 6)) { STEP("later, untouched"); put(s, SparseMatrix<T>(s.A), Ref(s.R), "pool entry at rest"); }
    }
    ::unlink(f.c_str());
    c.nontrivial = any;
}
FAMILY(pipe_d, "pipeline.double") { pipeline<double>(c); }
FAMILY(pipe_i, "pipeline.int") { pipeline<int>(c); }
} // namespace
