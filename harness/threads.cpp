// Distinct objects from distinct threads, and shared constant matrices (C24).
// All threads run the same kinds of operation at the same moment on their own objects
// (or on shared constant ones); ThreadSanitizer watches the accesses, and every
// thread's results are compared bit by bit with the same work done alone afterwards.
#include "sp.hpp"
#include "sparsesolve.hpp"
#include <atomic>
#include <thread>
#include <unistd.h>
#include <sys/stat.h>
#include <time.h>
using namespace linalgcpp;
using namespace vh;

namespace
{
int mkdir_(const std::string& p) { return ::mkdir(p.c_str(), 0700); }
struct H
{
    uint64_t h;
    H() : h(1469598103934665603ull) {}
    void raw(uint64_t v) { h = hash_mix(h, v); }
    void operator()(double v) { uint64_t u; std::memcpy(&u, &v, 8); raw(u); }
    void operator()(int v) { raw((uint64_t)(int64_t)v); }
    template <typename V> void vec(const V& v) { (*this)((int)v.size()); for (int i = 0; i < (int)v.size(); ++i) (*this)(v[i]); }
    void operator()(const DenseMatrix& D) { (*this)(D.Rows()); (*this)(D.Cols()); const double* p = D.GetData(); for (int i = 0; i < D.Rows() * D.Cols(); ++i) (*this)(p[i]); }
    template <typename T> void operator()(const SparseMatrix<T>& S) { (*this)(S.Rows()); (*this)(S.Cols()); vec(S.GetIndptr()); vec(S.GetIndices()); vec(S.GetData()); }
    void str(const std::string& s) { for (char c : s) raw((uint64_t)(unsigned char)c); }
};
SpModel spm(Rng& r, int m, int n)
{
    SpModel M(m, n);
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) if (i == j || r.chance(1, 3)) M.e[std::make_pair(i, j)] = r.uniform(-2, 2) + (i == j ? 9 : 0);
    return M;
}
SparseMatrix<double> spd(Rng& r, int n)
{
    SpModel M = spm(r, n, n), S(n, n);
    for (auto& p : M.e) { S.e[p.first] += p.second; S.e[std::make_pair(p.first.second, p.first.first)] += p.second; }
    for (int i = 0; i < n; ++i) S.e[std::make_pair(i, i)] += 4 * n;
    return build_csr<double>(r, S, false);
}
DenseMatrix dn(Rng& r, int m, int n) { return dense_of(gen_ref(r, m, n, 2)); }
Vector<double> vc(Rng& r, int n) { return Vector<double>(gen_vec<double>(r, n, 2)); }

SparseMatrix<int> full_int(Rng& r, int m, int n)
{
    SpModel M(m, n);
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) if (r.chance(1, 2)) M.e[std::make_pair(i, j)] = r.range(-5, 5);
    return build_csr<int>(r, M, true);
}

const char* OPS[] = {"vector arithmetic", "vector randomise", "dense products", "dense edits", "dense factorisations", "eigen solve", "sparse products",
                     "sparse edits", "sparse conversions", "triplet assembly", "block matrix", "block operator", "Krylov solvers", "direct solver",
                     "text and binary files", "printing", "argument parser", "copies moves swaps", "integer vectors"};
const int NOPS = sizeof(OPS) / sizeof(OPS[0]);

// One operation on objects of its own; nothing here is shared. `dir` is private to the thread.
uint64_t own_op(int op, uint64_t seed, const std::string& dir)
{
    Rng r(seed); H h;
    const int m = r.range(1, 12), n = r.range(1, 12), k = r.range(1, 8);
    switch (op)
    {
        case 0:
        {
            Vector<double> x = vc(r, n), y = vc(r, n), z(n);
            x += y; x.Add(2.0, y); x *= 1.5; Add(x, y, z); Sub(z, y, x); Add(1.0, x, 2.0, y, 3.0, z); z -= x; z /= 3.0; z.Normalize();
            Vector<double> w = x + y, v = 2.0 * w; SubAvg(v); h.vec(x); h.vec(z); h.vec(v);
            h(Sum(x)); h(L2Norm(y)); h(Max(x)); h(AbsMin(y)); h(Mean(z)); h(InnerProduct(x, y)); h(x.Mult(y));
            std::vector<int> idx(3, n - 1); h.vec(x.GetSubVector(idx));
            break;
        }
        case 1:
        {
            Vector<double> x(n); Vector<int> q(n); int s = r.range(1, 1000);
            Randomize(x, -1.0, 2.0, s); h.vec(x); Randomize(q, -5, 5, s); h.vec(q);
            x.Randomize(0.0, 4.0, s + 1); h.vec(x);
            Vector<double> u(n); Randomize(u, 0.0, 1.0); for (double v : u) if (!(v >= 0 && v <= 1)) h(1); // unseeded: only the range is checked
            break;
        }
        case 2:
        {
            DenseMatrix A = dn(r, m, n), B = dn(r, n, k), C = dn(r, m, k), D = dn(r, k, n), E = dn(r, k, m), o;
            h(A.Mult(B)); h(A.MultAT(C)); h(A.MultBT(D)); h(A.MultABT(E)); A.Transpose(o); h(o);
            h.vec(A.Mult(vc(r, n))); h.vec(A.MultAT(vc(r, m))); h(A + A); h(A - A * 2.0);
            break;
        }
        case 3:
        {
            DenseMatrix A = dn(r, m, n);
            A(m - 1, n - 1) = 2; A.SetRow(0, vc(r, n)); A.SetCol(0, vc(r, m)); h(A.GetRow(0, m)); h(A.GetCol(0, n)); h(A.GetSubMatrix(0, 0, m, n));
            std::vector<int> I(2, m - 1), J(2, n - 1); A.AddSubMatrix(I, J, dn(r, 2, 2)); h(A.GetSubMatrix(I, J)); A.SetSubMatrix(0, 0, dn(r, 1, 1));
            A.ScaleRows(std::vector<double>(m, 2.0)); A.InverseScaleCols(std::vector<double>(n, 3.0)); h(A);
            std::vector<DenseMatrix> P(2, A); h(HStack(P)); h(A.Sum()); h(A.Max()); h(A.Min());
            break;
        }
        case 4:
        {
            DenseMatrix A = dn(r, n, n); for (int i = 0; i < n; ++i) A(i, i) += 20; DenseMatrix I; A.Invert(I); h(I);
            DenseMatrix R = dn(r, m, n), Q, U; R.QR(Q); h(Q); h.vec(R.SVD(U)); h(U);
            break;
        }
        case 5:
        {
            EigenSolver E; Ref G = gen_ref(r, n, n, 2); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) G(i, j) = G(j, i);
            auto p = E.Solve(dense_of(G), 1.0, n); h.vec(p.first); h(p.second);
            auto q = E.Solve(spd(r, n), 0.7, n); h.vec(q.first); h(q.second);
            break;
        }
        case 6:
        {
            SparseMatrix<double> A = build_csr<double>(r, spm(r, m, n), true), B = build_csr<double>(r, spm(r, n, k), true);
            h(A.Mult<double, double>(B)); std::vector<int> mk(k); h(A.Mult<double, double>(B, mk)); h(A.Transpose()); h.vec(A.Mult(vc(r, n))); h.vec(A.MultAT(vc(r, m)));
            h(A.Mult(dn(r, n, k))); h(A.MultAT(dn(r, m, k))); h(A.MultCT(dn(r, n, k))); h(A.Sum()); h(A.MaxNorm());
            break;
        }
        case 7:
        {
            SparseMatrix<double> A = build_csr<double>(r, spm(r, n, n), true);
            A.SortIndices(); A.AddDiag(2.0); A.AddDiag(std::vector<double>(n, 1.0)); A.ScaleRows(std::vector<double>(n, 2.0)); A.InverseScaleCols(std::vector<double>(n, 3.0));
            std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = n - 1 - i; A.PermuteCols(p); A.EliminateRow(0); A.EliminateCol(n - 1); A.EliminateRowCol(n / 2);
            std::vector<int> mk(n, 0); mk[0] = 1; Vector<double> x = vc(r, n), b = vc(r, n); A.EliminateCol(mk, x, b); h.vec(b); A.EliminateZeros(); h(A);
            std::vector<int> I(1, n - 1), J(1, 0); h(A.GetSubMatrix(I, J)); A *= 2.0; A /= 4.0; h(A); h.vec(A.GetDiag());
            break;
        }
        case 8:
        {
            SparseMatrix<double> A = build_csr<double>(r, spm(r, m, n), true); SparseMatrix<int> B = full_int(r, m, n);
            h(A.ToDense()); h(A.TransposeDense()); h(B.ToDense()); h(B.Transpose()); DenseMatrix o(3, 3); B.ToDense(o); h(o);
            break;
        }
        case 9:
        {
            CooMatrix<double> C(m, n); LilMatrix<double> L(m, n); CooMatrix<int> F;
            for (int q = 0; q < 20; ++q) { int i = r.range(0, m - 1), j = r.range(0, n - 1); double v = r.uniform(-1, 1); C.Add(i, j, v); L.Add(i, j, v); F.Add(i, j, q); }
            std::vector<int> I(2, m - 1), J(2, n - 1); C.Add(I, J, dn(r, 2, 2)); L.Add(I, J, dn(r, 2, 2));
            h(C.ToSparse()); h(C.ToDense()); h(L.ToSparse()); h(L.ToDense()); h(F.ToSparse());
            const Operator& oc = C; const Operator& ol = L; h.vec(oc.Mult(vc(r, n))); h.vec(ol.MultAT(vc(r, m))); C.EliminateZeros(1e-3); h(C.ToSparse());
            break;
        }
        case 10: case 11:
        {
            std::vector<int> ro(1, 0), co(1, 0); for (int q = 0; q < 3; ++q) { ro.push_back(ro.back() + r.range(1, 4)); co.push_back(co.back() + r.range(1, 4)); }
            BlockMatrix<double> B(ro, co); BlockOperator O(ro, co); std::vector<std::unique_ptr<DenseMatrix>> keep;
            for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (r.chance(2, 3))
            {
                int a = ro[i + 1] - ro[i], b = co[j + 1] - co[j];
                if (op == 10) B.SetBlock(i, j, build_csr<double>(r, spm(r, a, b), true));
                else { keep.emplace_back(new DenseMatrix(dn(r, a, b))); O.SetBlock(i, j, *keep.back()); }
            }
            const Operator& A = op == 10 ? (const Operator&)B : (const Operator&)O;
            for (int q = 0; q < 2; ++q) { h.vec(A.Mult(vc(r, co.back()))); h.vec(A.MultAT(vc(r, ro.back()))); }
            if (op == 10) { h(B.Combine()); h(B.Transpose().Combine()); }
            BlockVector<double> v(ro, 1.0); v.GetBlock(1) = 2.0; h.vec(v);
            break;
        }
        case 12:
        {
            SparseMatrix<double> A = spd(r, n), M(std::vector<double>(n, 0.1)); Vector<double> b = vc(r, n);
            PCGSolver s1(A, 50, 1e-10), s2(A, M, 50, 1e-10); MINRESSolver s3(A, 50, 1e-10); PMINRESSolver s4(A, M, 50, 1e-10);
            const Solver* S[] = {&s1, &s2, &s3, &s4};
            for (auto s : S) { h.vec(s->Operator::Mult(b)); h(s->GetNumIterations()); }
            Vector<double> x0 = vc(r, n), x;
            x = x0; CG(A, b, x); h.vec(x); x = x0; PCG(A, M, b, x); h.vec(x); x = x0; MINRES(A, b, x); h.vec(x); x = x0; PMINRES(A, M, b, x); h.vec(x);
            // the returning forms start from an unseeded random guess: only their accuracy is repeatable
            Vector<double> R[] = {CG(A, b), PCG(A, M, b), MINRES(A, b), PMINRES(A, M, b)};
            for (auto& y : R) { Vector<double> e = A.Mult(y); e -= b; if (!(L2Norm(e) <= 1e-3 * (1.0 + L2Norm(b)))) h(1); }
            break;
        }
        case 13:
        {
            SparseMatrix<double> A = build_csr<double>(r, spm(r, n, n), false);
            for (int i = 0; i < n; ++i) A.AddDiag(3.0);
            SparseSolver S(A), T(S); const Operator& o = T; h.vec(o.Mult(vc(r, n))); SparseSolver U(std::move(S)); const Operator& p = U; h.vec(p.Mult(vc(r, n)));
            break;
        }
        case 14:
        {
            SparseMatrix<double> A = build_csr<double>(r, spm(r, n, n), false); std::string f = dir + "/f";
            WriteText(gen_vec<double>(r, n, 2), f); h.vec(ReadText<double>(f)); WriteBinary(gen_vec<double>(r, n, 2), f); h.vec(ReadBinaryVect<double>(f));
            WriteBinary(A, f); h(ReadBinaryMat<double>(f)); WriteCSR(A, f); h(ReadCSR<double>(f)); WriteMTX(A, f); h(ReadMTX<double>(f)); WriteCooList(A, f); h(ReadCooList<double>(f));
            WriteAdjList(A, f); h(ReadAdjList<double>(f)); WriteTable(A, f); h(ReadTable<double>(f));
            ::unlink(f.c_str());
            bool thrown = false; try { ReadText<double>(dir + "/absent"); } catch (const std::runtime_error&) { thrown = true; } h((int)thrown);
            break;
        }
        case 15:
        {
            std::ostringstream o; DenseMatrix A = dn(r, m, n); A.Print("A", o); build_csr<double>(r, spm(r, m, n), true).Print("S", o); vc(r, n).Print("v", o); o << vc(r, n);
            build_csr<double>(r, spm(r, m, n), true).PrintDense("S", o); h.str(o.str());
            break;
        }
        case 16:
        {
            std::string a = std::to_string(r.range(0, 99)), b = std::to_string(r.uniform(0, 9));
            const char* av[] = {"prog", "--n", a.c_str(), "--x", b.c_str(), "--s", "text"}; ArgParser P(7, av);
            int N = -1; double X = -1; std::string S = "d"; bool B = false; P.Parse(N, "--n"); P.Parse(X, "--x"); P.Parse(S, "--s"); P.Parse(B, "--b");
            h(N); h(X); h.str(S); h((int)B); std::ostringstream o; P.ShowOptions(o); P.ShowErrors(o); h.str(o.str()); h((int)P.IsGood());
            Timer t(Timer::Start::True); t.Click(); if (t.TotalTime() < 0) h(1);
            break;
        }
        case 17:
        {
            Vector<double> a = vc(r, n), b(a), c; c = b; b = std::move(a); swap(b, c); h.vec(b); h.vec(c);
            DenseMatrix d = dn(r, m, n), e(d), f; f = e; swap(d, f); h(d); DenseMatrix g(std::move(d)); h(g);
            SparseMatrix<double> s = build_csr<double>(r, spm(r, m, n), true), t(s), u; u = t; swap(u, s); h(u); SparseMatrix<double> v(std::move(s)); h(v);
            break;
        }
        default:
        {
            Vector<int> a(gen_vec<int>(r, n, 0)), b(gen_vec<int>(r, n, 0)); a += b; a *= 2; h.vec(a); h(Sum(a)); h(Max(a)); h(Min(b)); h(a.Mult(b));
            SparseMatrix<int> B = full_int(r, m, n); h.vec(B.Mult(Vector<int>(gen_vec<int>(r, n, 0)))); h(B.Mult<int, int>(B.Transpose()));
            break;
        }
    }
    return h.h;
}

// ---- shared constants
struct Shared
{
    DenseMatrix D, Dn, Dm, Dkn, Dkm; SparseMatrix<double> S, R; SparseMatrix<int> I; CooMatrix<double> C, Cu; LilMatrix<double> L, Lu; BlockMatrix<double> B; BlockVector<double> V;
    Vector<double> xn, xm; std::vector<int> rows, cols; int m, n, k;
};
const char* SOPS[] = {"dense product", "dense transposed product", "dense-dense products", "dense blocks", "sparse product", "sparse transposed product", "sparse-dense products",
                      "sparse-sparse product", "sparse transpose", "sparse to dense", "sparse submatrix", "integer sparse", "coo conversions", "lil conversions", "coo products", "lil products",
                      "block matrix products", "block matrix conversions", "vector reductions", "copies", "printing", "entry reads", "writing files", "dense factorisations of copies"};
const int NSOPS = sizeof(SOPS) / sizeof(SOPS[0]);
uint64_t shared_op(int op, const Shared& g, const std::string& dir)
{
    H h;
    const Operator& C = g.C; const Operator& L = g.L; const Operator& B = g.B;
    switch (op)
    {
        case 0: h.vec(g.D.Mult(g.xn)); { Vector<double> o; g.D.Operator::Mult(g.xn, o); h.vec(o); } break;
        case 1: h.vec(g.D.MultAT(g.xm)); break;
        case 2: h(g.D.Mult(g.Dn)); h(g.D.MultAT(g.Dm)); h(g.D.MultBT(g.Dkn)); h(g.D.MultABT(g.Dkm)); h(g.D.Transpose()); h(g.D + g.D); break;
        case 3: h(g.D.GetSubMatrix(0, 0, g.m, g.n)); h(g.D.GetSubMatrix(g.rows, g.cols)); h(g.D.GetRow(g.rows)); h.vec(g.D.GetColView(0)); h.vec(g.D.GetRow<double>(0)); h(g.D.Sum()); h(g.D.Max()); break;
        case 4: h.vec(g.S.Mult(g.xn)); { Vector<double> o(g.m); g.S.Mult(g.xn, static_cast<VectorView<double>&>(o)); h.vec(o); } break;
        case 5: h.vec(g.S.MultAT(g.xm)); break;
        case 6: h(g.S.Mult(g.Dn)); h(g.S.MultAT(g.Dm)); h(g.S.MultCT(g.Dn)); break;
        case 7: h(g.S.Mult<double, double>(g.R)); { std::vector<int> mk(g.k); h(g.S.Mult<double, double>(g.R, mk)); } break;
        case 8: h(g.S.Transpose()); h(g.S.Transpose<double>()); break;
        case 9: h(g.S.ToDense()); h(g.S.TransposeDense()); break;
        case 10: h(g.S.GetSubMatrix(g.rows, g.cols)); { std::vector<int> mk(g.n, -1); h(g.S.GetSubMatrix(g.rows, g.cols, mk)); } break;
        case 11: h(g.I.ToDense()); h(g.I.Transpose()); h(g.I.Sum()); h.vec(g.I.Mult(g.xn)); break;
        case 12: h(g.C.ToSparse()); h(g.C.ToDense()); h(g.Cu.ToSparse()); h(g.Cu.Rows()); h(g.Cu.Cols()); break;
        case 13: h(g.L.ToSparse()); h(g.L.ToDense()); h(g.Lu.ToSparse()); h(g.Lu.Rows()); h(g.Lu.Cols()); break;
        case 14: h.vec(C.Mult(g.xn)); h.vec(C.MultAT(g.xm)); break;
        case 15: h.vec(L.Mult(g.xn)); h.vec(L.MultAT(g.xm)); break;
        case 16: h.vec(B.Mult(g.xn)); h.vec(B.MultAT(g.xm)); break;
        case 17: h(g.B.Combine()); h(g.B.Transpose().Combine()); break;
        case 18: h(Sum(g.xn)); h(L2Norm(g.xn)); h(Max(g.xn)); h(AbsMax(g.xm)); h(Mean(g.xm)); h(g.xn.Mult(g.xn)); h(InnerProduct(g.xm, g.xm)); h.vec(g.xn + g.xn); h.vec(2.0 * g.xm); h.vec(g.V.GetBlock(0)); break;
        case 19: { DenseMatrix d(g.D); h(d); SparseMatrix<double> s(g.S); s *= 2.0; h(s); CooMatrix<double> c(g.C); c.Add(0, 0, 1.0); h(c.ToSparse()); LilMatrix<double> l(g.L); h(l.ToSparse()); Vector<double> v(g.xn); v *= 2.0; h.vec(v); break; }
        case 20: { std::ostringstream o; g.D.Print("D", o); g.S.Print("S", o); g.C.Print("C", o); g.L.Print("L", o); g.xn.Print("x", o); h.str(o.str()); break; }
        case 21: h(g.D(0, 0)); h(g.S.nnz()); h(g.S.RowSize(0)); h.vec(g.S.GetIndices(0)); h.vec(g.S.GetData(0)); h(g.xn[0]); h.vec(g.V.GetOffsets()); break;
        case 22: { std::string f = dir + "/s"; WriteBinary(g.S, f); h(ReadBinaryMat<double>(f)); WriteCSR(g.S, f); h(ReadCSR<double>(f)); WriteText(g.xn, f); h.vec(ReadText<double>(f)); ::unlink(f.c_str()); break; }
        default: { DenseMatrix Q, U; g.D.QR(Q); h(Q); h.vec(g.D.SVD(U)); h(U); break; }
    }
    return h.h;
}
void build(Shared& g, Rng& r)
{
    std::vector<int> ro(1, 0), co(1, 0); for (int q = 0; q < 3; ++q) { ro.push_back(ro.back() + r.range(1, 6)); co.push_back(co.back() + r.range(1, 6)); }
    g.m = ro.back(); g.n = co.back(); g.k = r.range(1, 8);
    g.D = dn(r, g.m, g.n); g.Dn = dn(r, g.n, g.k); g.Dm = dn(r, g.m, g.k); g.Dkn = dn(r, g.k, g.n); g.Dkm = dn(r, g.k, g.m);
    g.S = build_csr<double>(r, spm(r, g.m, g.n), true); g.R = build_csr<double>(r, spm(r, g.n, g.k), true); g.I = full_int(r, g.m, g.n);
    g.C = CooMatrix<double>(g.m, g.n); g.L = LilMatrix<double>(g.m, g.n);
    for (int q = 0; q < 30; ++q) { int i = r.range(0, g.m - 1), j = r.range(0, g.n - 1); double v = r.uniform(-1, 1); g.C.Add(i, j, v); g.Cu.Add(i, j, v); g.L.Add(i, j, v); g.Lu.Add(i, j, v); }
    g.B = BlockMatrix<double>(ro, co);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (r.chance(2, 3)) g.B.SetBlock(i, j, build_csr<double>(r, spm(r, ro[i + 1] - ro[i], co[j + 1] - co[j]), true));
    g.V = BlockVector<double>(ro, 1.5); g.xn = vc(r, g.n); g.xm = vc(r, g.m);
    for (int i = 0; i < g.m; ++i) if (r.chance(1, 2)) g.rows.push_back(i);
    for (int j = 0; j < g.n; ++j) if (r.chance(1, 2)) g.cols.push_back(j);
}

// ---- the scheduler: a start line per step (or none), random yields and spins, an event order
struct Field
{
    int threads, steps; bool lockstep;
    std::atomic<int> arrived; std::atomic<int> active; std::atomic<int> overlaps; std::atomic<uint64_t> ticket;
    std::vector<std::atomic<uint64_t>> order;
    Field(int t, int s, bool l) : threads(t), steps(s), lockstep(l), arrived(0), active(0), overlaps(0), ticket(0), order((size_t)t * s * 2) { for (auto& o : order) o.store(0, std::memory_order_relaxed); }
    void line(int step, Rng& r)
    {
        if (lockstep || step == 0) { arrived.fetch_add(1); while (arrived.load() < threads * (step + 1)) std::this_thread::yield(); }
        int k = r.range(0, 9);
        if (k == 0) std::this_thread::yield();
        else if (k == 1) { struct timespec t = {0, r.range(1, 60) * 1000}; nanosleep(&t, nullptr); }
        else if (k < 5) for (volatile int i = 0; i < r.range(1, 400); ++i) ;
    }
    // relaxed on purpose: the monitor must not order what it watches
    void enter(int t) { if (active.fetch_add(1, std::memory_order_relaxed) > 0) overlaps.fetch_add(1, std::memory_order_relaxed); note(t); }
    void leave(int t) { note(t); active.fetch_sub(1, std::memory_order_relaxed); }
    void note(int t) { uint64_t k = ticket.fetch_add(1, std::memory_order_relaxed); order[k].store((uint64_t)t + 1, std::memory_order_relaxed); }
};

template <typename F>
void race(Ctx& c, int threads, int steps, bool lockstep, const F& work, const char* const* names, const std::vector<std::vector<int>>& plan)
{
    Rng& r = c.r;
    Field f(threads, steps, lockstep);
    std::vector<std::vector<uint64_t>> got(threads, std::vector<uint64_t>(steps, 0));
    std::vector<std::string> what(threads);
    std::vector<uint64_t> seeds(threads); for (auto& s : seeds) s = r.next();
    std::vector<std::thread> T;
    STEP("threads running");
    for (int t = 0; t < threads; ++t)
        T.emplace_back([&, t]()
        {
            Rng q(seeds[t]);
            for (int s = 0; s < steps; ++s)
            {
                f.line(s, q); f.enter(t);
                try { got[t][s] = work(t, s); } catch (const std::exception& e) { what[t] = e.what(); }
                f.leave(t);
            }
        });
    for (auto& t : T) t.join();
    STEP("alone");
    for (int t = 0; t < threads; ++t)
    {
        CHECK(what[t].empty(), "thread-exception", "thread %d: %s", t, what[t].c_str());
        for (int s = 0; s < steps; ++s)
        {
            uint64_t alone = work(t, s);
            count("monitor: result compared with the same work alone");
            CHECK(alone == got[t][s], "thread-result", "thread %d, step %d, %s: the result differs from the one computed alone (%016llx against %016llx)", t, s, names[plan[t][s]], (unsigned long long)got[t][s], (unsigned long long)alone);
        }
    }
    count("operations begun while another was running", f.overlaps.load());
    uint64_t sig = 0; for (auto& o : f.order) sig = hash_mix(sig, o.load(std::memory_order_relaxed));
    c.mix(sig); // distinct cases are distinct interleavings of begin and end events
    c.nontrivial = f.overlaps.load() > 0;
}

FAMILY(th_own, "threads.own", 25, false)
{
    Rng& r = c.r;
    int threads = r.range(2, 6), steps = r.range(3, 8); bool lock = r.chance(2, 3), same = r.chance(2, 3);
    std::vector<std::vector<int>> plan(threads, std::vector<int>(steps));
    for (int s = 0; s < steps; ++s) { int o = r.range(0, NOPS - 1); for (int t = 0; t < threads; ++t) plan[t][s] = same ? o : r.range(0, NOPS - 1); }
    for (auto& p : plan) for (int o : p) count(OPS[o]);
    uint64_t base = r.next();
    c.describe("%d threads, %d steps, %s, %s", threads, steps, lock ? "in step" : "free", same ? "same operations" : "mixed operations");
    std::vector<std::string> dir(threads);
    for (int t = 0; t < threads; ++t) { dir[t] = std::string(scratch_dir()) + "/th" + std::to_string(c.idx) + "_" + std::to_string(t); if (mkdir_(dir[t])) fail("harness", "mkdir"); }
    race(c, threads, steps, lock, [&](int t, int s) { return own_op(plan[t][s], hash_mix(base, (uint64_t)t * 100 + s), dir[t]); }, OPS, plan);
    for (auto& d : dir) ::rmdir(d.c_str());
}
FAMILY(th_shared, "threads.shared", 25, false)
{
    Rng& r = c.r;
    int threads = r.range(2, 6), steps = r.range(3, 9); bool lock = r.chance(2, 3), same = r.chance(2, 3);
    std::vector<std::vector<int>> plan(threads, std::vector<int>(steps));
    for (int s = 0; s < steps; ++s) { int o = r.range(0, NSOPS - 1); for (int t = 0; t < threads; ++t) plan[t][s] = same ? o : r.range(0, NSOPS - 1); }
    for (auto& p : plan) for (int o : p) count(SOPS[o]);
    Shared g; build(g, r);
    c.describe("%d threads, %d steps on shared %dx%d, %s, %s", threads, steps, g.m, g.n, lock ? "in step" : "free", same ? "same operations" : "mixed operations");
    std::vector<std::string> dir(threads);
    for (int t = 0; t < threads; ++t) { dir[t] = std::string(scratch_dir()) + "/sh" + std::to_string(c.idx) + "_" + std::to_string(t); if (mkdir_(dir[t])) fail("harness", "mkdir"); }
    race(c, threads, steps, lock, [&](int t, int s) { return shared_op(plan[t][s], g, dir[t]); }, SOPS, plan);
    for (auto& d : dir) ::rmdir(d.c_str());
}
} // namespace
