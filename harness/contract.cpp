// Debug builds stop size mismatches and bad indices before any damage (C23).
// Each bad call runs in a forked child of a build with assertions and AddressSanitizer;
// the monitor looks at how the child ended. Stopped by an assertion or an exception is
// right; returning, a sanitizer report or a signal is a violation.
#include "sp.hpp"
#include "sparsesolve.hpp"
#include "partition.hpp"
#include "timer.hpp"
using namespace linalgcpp;
using namespace vh;

namespace
{
struct Call { const char* name; std::function<void()> fn; };
struct Calls
{
    std::vector<Call> v;
    void operator()(const char* n, std::function<void()> f) { Call k = {n, f}; v.push_back(k); }
};
volatile double sink;
const Operator& as_op(const Operator& o) { return o; }
void use(double x) { sink = x; }
template <typename V> void use_all(const V& v) { double s = 0; for (int i = 0; i < (int)v.size(); ++i) s += (double)v[i]; use(s); }
void use_dense(const DenseMatrix& D) { double s = 0; for (int i = 0; i < D.Rows(); ++i) for (int j = 0; j < D.Cols(); ++j) s += D(i, j); use(s); }
void use_sp(const SparseMatrix<double>& S) { use_all(S.GetData()); use_all(S.GetIndices()); }
void use_sp(const SparseMatrix<int>& S) { use_all(S.GetData()); use_all(S.GetIndices()); }

std::string key(const char* k, const char* n) { std::string s = std::string(k) + ":" + n; for (char& ch : s) if (ch == ' ') ch = '_'; return s; }
void decide(Ctx& c, const Calls& L, int rounds)
{
    for (int q = 0; q < rounds; ++q)
    {
        const Call& k = L.v[(size_t)((c.idx * rounds + q) % (long)L.v.size())];
        STEP(k.name);
        std::string d;
        Death w = death(k.fn, &d);
        if (w == D_STOPPED) count("outcome: stopped by an assertion");
        else if (w == D_THROWN) count("outcome: exception");
        else if (w == D_SILENT) fail(key("contract-silent", k.name).c_str(), "%s: the bad call returned", k.name);
        else if (w == D_SANITIZER) fail(key("contract-damage", k.name).c_str(), "%s: memory was touched before the call was stopped: %s", k.name, d.c_str());
        else fail(key("contract-crash", k.name).c_str(), "%s: the call crashed: %s", k.name, d.c_str());
    }
}

// an index just outside, or further outside, [0, n)
int bad(Rng& r, int n)
{
    switch (r.range(0, 4))
    {
        case 0: case 1: return n;
        case 2: return -1;
        case 3: return n + r.range(1, 40);
        default: return -r.range(2, 40);
    }
}
// a size that is not n
int off(Rng& r, int n)
{
    int k = r.range(0, 3);
    if (k == 0 && n > 0) return n - 1;
    if (k == 1) return n + 1;
    if (k == 2) return n + r.range(2, 30);
    int s = n == 0 ? n + 1 : r.range(0, n - 1);
    return s;
}
template <typename T> Vector<T> vec(Rng& r, int n) { Vector<T> v(n); for (int i = 0; i < n; ++i) v[i] = (T)r.range(1, 9); return v; }
DenseMatrix dns(Rng& r, int m, int n) { return dense_of(gen_ref(r, m, n, 0)); }
template <typename T> SparseMatrix<T> full_sp(Rng& r, int m, int n)
{
    SpModel M(m, n);
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) if (i == j || r.chance(1, 2)) M.e[std::make_pair(i, j)] = r.range(1, 6);
    return build_csr<T>(r, M, false);
}

template <typename T>
void vectors(Ctx& c)
{
    Rng& r = c.r;
    const int n = r.range(1, 9), k = off(r, n), b = bad(r, n);
    c.describe("vectors of %d and %d, index %d", n, k, b); c.mix(n); c.mix(k); c.mix((uint64_t)b); c.nontrivial = true;
    std::vector<T> store(n, (T)2), store2(k, (T)3);
    Vector<T> v = vec<T>(r, n), w = vec<T>(r, k), u = vec<T>(r, n);
    const Vector<T> cv(v), cw(w);
    Calls L;
    L("vector entry", [&]() { v[b] = (T)1; });
    L("const vector entry", [&]() { use((double)cv[b]); });
    L("view entry", [&]() { VectorView<T> q(store); q[b] = (T)1; });
    L("const view entry", [&]() { const VectorView<T> q(store.data(), n); use((double)q[b]); });
    L("view = view", [&]() { VectorView<T> p(store), q(store2); p = q; });
    L("view = temporary view", [&]() { VectorView<T> p(store); p = VectorView<T>(store2); });
    L("view = const view", [&]() { VectorView<T> p(store); const VectorView<T> q(store2.data(), k); p = q; });
    L("view = vector", [&]() { VectorView<T> p(store); p = cw; });
    L("GetSubVector index", [&]() { std::vector<int> i(3, 0); i[r.range(0, 2)] = b; use_all(v.GetSubVector(i)); });
    L("GetSubVector into index", [&]() { std::vector<int> i(2, b); Vector<T> o(1); v.GetSubVector(i, o); });
    L("Mult", [&]() { use((double)v.Mult(w)); });
    L("view Mult", [&]() { VectorView<T> p(store), q(store2); use((double)p.Mult(q)); });
    L("InnerProduct", [&]() { use(InnerProduct(cv, cw)); });
    L("v*w", [&]() { use(cv * cw); });
    L("v.Add(a,w)", [&]() { v.Add(2.0, w); });
    L("v.Sub(a,w)", [&]() { v.Sub(2.0, w); });
    L("v.Set(a,w)", [&]() { v.Set(2.0, w); });
    L("v.Add(w)", [&]() { v.Add(w); });
    L("v.Sub(w)", [&]() { v.Sub(w); });
    L("v.Set(w)", [&]() { v.Set(w); });
    L("v+=w", [&]() { v += w; });
    L("v-=w", [&]() { v -= w; });
    L("v*=w", [&]() { v *= w; });
    L("v/=w", [&]() { v /= w; });
    L("v+w", [&]() { use_all(v + w); });
    L("v-w", [&]() { use_all(v - w); });
    L("v/=0", [&]() { v /= (T)0; });
    L("v/0", [&]() { use_all(v / (T)0); });
    L("v/=w with a zero entry", [&]() { u[r.range(0, n - 1)] = 0; v /= u; });
    L("Add(x,y,z) y", [&]() { Vector<T> o(n); linalgcpp::Add<T>(v, w, o); });
    L("Add(x,y,z) z", [&]() { Vector<T> o(k); linalgcpp::Add<T>(v, u, o); });
    L("Add(x,y,z) x", [&]() { Vector<T> o(n); linalgcpp::Add<T>(w, u, o); });
    L("Sub(x,y,z) y", [&]() { Vector<T> o(n); linalgcpp::Sub<T>(v, w, o); });
    L("Sub(x,y,z) z", [&]() { Vector<T> o(k); linalgcpp::Sub<T>(v, u, o); });
    L("Sub(x,y,z) x", [&]() { Vector<T> o(n); linalgcpp::Sub<T>(w, u, o); });
    L("Add(a,x,b,y,g,z) y", [&]() { Vector<T> o(n, (T)0); linalgcpp::Add<T>((T)1, v, (T)1, w, (T)1, o); });
    L("Add(a,x,b,y,g,z) z", [&]() { Vector<T> o(k, (T)0); linalgcpp::Add<T>((T)1, v, (T)1, u, (T)1, o); });
    L("Add(a,x,b,y,g,z) x", [&]() { Vector<T> o(n, (T)0); linalgcpp::Add<T>((T)1, w, (T)1, u, (T)1, o); });
    std::vector<int> offs(1, 0); int nb = r.range(1, 4); for (int i = 0; i < nb; ++i) offs.push_back(offs.back() + r.range(0, 4));
    int bb = bad(r, nb), tot = offs.back(), koff = off(r, tot), be = bad(r, tot);
    BlockVector<T> B(offs, (T)1); const BlockVector<T> CB(B);
    L("GetBlock", [&]() { use_all(B.GetBlock(bb)); });
    L("const GetBlock", [&]() { use_all(CB.GetBlock(bb)); });
    L("block vector entry", [&]() { B[be] = (T)1; });
    L("block view = other size", [&]() { int q = r.range(0, nb - 1); Vector<T> o = vec<T>(r, off(r, offs[q + 1] - offs[q])); B.GetBlock(q) = o; });
    L("BlockVector(view, offsets)", [&]() { Vector<T> o = vec<T>(r, koff); BlockVector<T> q(o, offs); use_all(q); });
    L("Max of an empty vector", [&]() { Vector<T> e; use((double)Max(e)); });
    L("Min of an empty vector", [&]() { Vector<T> e; use((double)Min(e)); });
    L("AbsMax of an empty vector", [&]() { Vector<T> e; use((double)AbsMax(e)); });
    L("AbsMin of an empty vector", [&]() { Vector<T> e; use((double)AbsMin(e)); });
    L("Max of an empty view", [&]() { VectorView<T> e; use((double)Max(e)); });
    L("Min of an empty view", [&]() { VectorView<T> e; use((double)Min(e)); });
    decide(c, L, 3);
}
FAMILY(cv_d, "contract.vector.double", 25, false) { vectors<double>(c); }
FAMILY(cv_i, "contract.vector.int", 25, false) { vectors<int>(c); }

FAMILY(cdense, "contract.dense", 25, false)
{
    Rng& r = c.r;
    const int m = r.range(1, 8), n = r.range(1, 8), p = r.range(1, 6);
    const int bm = bad(r, m), bn = bad(r, n), om = off(r, m), on = off(r, n);
    c.describe("dense %dx%d, bad row %d, bad column %d, sizes %d %d", m, n, bm, bn, om, on); c.mix(m); c.mix(n); c.mix((uint64_t)bm); c.mix((uint64_t)bn); c.mix(om); c.mix(on); c.nontrivial = true;
    DenseMatrix A = dns(r, m, n); const DenseMatrix CA(A);
    const int gi = r.range(0, m - 1), gj = r.range(0, n - 1);
    Calls L;
    L("dense row index", [&]() { A(bm, gj) = 1; });
    L("dense column index", [&]() { A(gi, bn) = 1; });
    L("const dense row index", [&]() { use(CA(bm, gj)); });
    L("const dense column index", [&]() { use(CA(gi, bn)); });
    L("dense from data of another size", [&]() { DenseMatrix D(m, n, std::vector<double>(off(r, m * n), 1.0)); use_dense(D); });
    L("dense Mult input", [&]() { use_all(A.Mult(vec<double>(r, on))); });
    L("dense Mult output", [&]() { Vector<double> o(om); VectorView<double> ov(o); A.Mult(vec<double>(r, n), ov); });
    L("dense MultAT input", [&]() { use_all(as_op(A).MultAT(vec<double>(r, om))); });
    L("dense MultAT output", [&]() { Vector<double> o(on); VectorView<double> ov(o); A.MultAT(vec<double>(r, m), ov); });
    L("dense Mult as operator", [&]() { const Operator& O = A; Vector<double> o(om); VectorView<double> ov(o); O.Mult(vec<double>(r, n), ov); });
    L("dense MultAT as operator", [&]() { const Operator& O = A; Vector<double> o(n); VectorView<double> ov(o); O.MultAT(vec<double>(r, om), ov); });
    L("dense InnerProduct left", [&]() { use(A.InnerProduct(vec<double>(r, on), vec<double>(r, m))); });
    L("dense InnerProduct right", [&]() { use(A.InnerProduct(vec<double>(r, n), vec<double>(r, om))); });
    L("dense Mult dense", [&]() { use_dense(A.Mult(dns(r, on, p))); });
    L("dense MultAT dense", [&]() { use_dense(A.MultAT(dns(r, om, p))); });
    L("dense MultBT dense", [&]() { use_dense(A.MultBT(dns(r, p, on))); });
    L("dense MultABT dense", [&]() { use_dense(A.MultABT(dns(r, p, om))); });
    L("dense Mult dense into", [&]() { DenseMatrix o; A.Mult(dns(r, on, p), o); });
    L("dense MultAT dense into", [&]() { DenseMatrix o; A.MultAT(dns(r, om, p), o); });
    L("dense MultBT dense into", [&]() { DenseMatrix o; A.MultBT(dns(r, p, on), o); });
    L("dense MultABT dense into", [&]() { DenseMatrix o; A.MultABT(dns(r, p, om), o); });
    L("dense += rows", [&]() { A += dns(r, om, n); });
    L("dense += columns", [&]() { A += dns(r, m, on); });
    L("dense -= rows", [&]() { A -= dns(r, om, n); });
    L("dense -= columns", [&]() { A -= dns(r, m, on); });
    L("dense +", [&]() { use_dense(A + dns(r, om, n)); });
    L("dense -", [&]() { use_dense(A - dns(r, m, on)); });
    if (m != n) L("dense += transposed shape", [&]() { A += dns(r, n, m); });
    if (m != n) L("dense -= transposed shape", [&]() { A -= dns(r, n, m); });
    L("dense /= 0", [&]() { A /= 0.0; });
    L("dense / 0", [&]() { use_dense(A / 0.0); });
    L("GetColView", [&]() { A.GetColView(bn)[0] = 1; });
    L("const GetColView", [&]() { use(CA.GetColView(bn)[0]); });
    L("GetCol column", [&]() { use_all(CA.GetCol<double>(bn)); });
    L("GetRow row", [&]() { use_all(CA.GetRow<double>(bm)); });
    L("GetCol into view size", [&]() { Vector<double> o(om); VectorView<double> v(o); CA.GetCol(gj, v); });
    L("GetCol non-const into view size", [&]() { Vector<double> o(om); VectorView<double> v(o); A.GetCol(gj, v); });
    L("GetCol non-const column", [&]() { Vector<double> o(m); VectorView<double> v(o); A.GetCol(bn, v); });
    L("GetRow into view size", [&]() { Vector<double> o(on); VectorView<double> v(o); A.GetRow(gi, v); });
    L("SetCol column", [&]() { A.SetCol(bn, vec<double>(r, m)); });
    L("SetCol size", [&]() { A.SetCol(gj, vec<double>(r, om)); });
    L("SetRow row", [&]() { A.SetRow(bm, vec<double>(r, n)); });
    L("SetRow size", [&]() { A.SetRow(gi, vec<double>(r, on)); });
    L("GetRow range end", [&]() { use_dense(A.GetRow(gi, m + r.range(1, 9))); });
    L("GetRow range start", [&]() { use_dense(A.GetRow(-r.range(1, 9), gi)); });
    L("GetRow range reversed", [&]() { use_dense(A.GetRow(gi + 1, gi)); });
    L("GetCol range end", [&]() { use_dense(A.GetCol(gj, n + r.range(1, 9))); });
    L("GetCol range start", [&]() { use_dense(A.GetCol(-r.range(1, 9), gj)); });
    L("GetCol range reversed", [&]() { use_dense(A.GetCol(gj + 1, gj)); });
    L("GetRow list", [&]() { std::vector<int> i(3, gi); i[r.range(0, 2)] = bm; use_dense(A.GetRow(i)); });
    L("GetRow list into rows", [&]() { std::vector<int> i(3, gi); DenseMatrix o(off(r, 3), n); A.GetRow(i, o); });
    L("GetRow list into columns", [&]() { std::vector<int> i(3, gi); DenseMatrix o(3, on); A.GetRow(i, o); });
    L("SetRow block too far down", [&]() { A.SetRow(m - r.range(0, 1), dns(r, 2, n)); });
    L("SetRow block above", [&]() { A.SetRow(-1, dns(r, 1, n)); });
    L("SetRow block too narrow", [&]() { if (n > 1) A.SetRow(0, dns(r, 1, n - 1)); else A.SetRow(-1, dns(r, 1, n)); });
    L("SetRow block too wide", [&]() { A.SetRow(0, dns(r, 1, n + r.range(1, 4))); });
    L("SetCol block too far right", [&]() { A.SetCol(n - r.range(0, 1), dns(r, m, 2)); });
    L("SetCol block left", [&]() { A.SetCol(-1, dns(r, m, 1)); });
    L("SetCol block too short", [&]() { if (m > 1) A.SetCol(0, dns(r, m - 1, 1)); else A.SetCol(-1, dns(r, m, 1)); });
    L("SetCol block too tall", [&]() { A.SetCol(0, dns(r, m + r.range(1, 4), 1)); });
    L("GetSubMatrix row end", [&]() { use_dense(A.GetSubMatrix(0, 0, m + r.range(1, 4), n)); });
    L("GetSubMatrix column end", [&]() { use_dense(A.GetSubMatrix(0, 0, m, n + r.range(1, 4))); });
    L("GetSubMatrix row start", [&]() { use_dense(A.GetSubMatrix(-r.range(1, 4), 0, m, n)); });
    L("GetSubMatrix column start", [&]() { use_dense(A.GetSubMatrix(0, -r.range(1, 4), m, n)); });
    L("GetSubMatrix list row", [&]() { std::vector<int> i(2, bm), j(2, gj); use_dense(A.GetSubMatrix(i, j)); });
    L("GetSubMatrix list column", [&]() { std::vector<int> i(2, gi), j(2, bn); use_dense(A.GetSubMatrix(i, j)); });
    L("SetSubMatrix rows", [&]() { A.SetSubMatrix(r.range(1, m), 0, dns(r, m, n)); });
    L("SetSubMatrix columns", [&]() { A.SetSubMatrix(0, r.range(1, n), dns(r, m, n)); });
    L("SetSubMatrix start", [&]() { A.SetSubMatrix(-1, 0, dns(r, 1, 1)); });
    L("SetSubMatrix too small a source", [&]() { A.SetSubMatrix(0, 0, m, n, dns(r, m - 1, n)); });
    L("SetSubMatrix too narrow a source", [&]() { A.SetSubMatrix(0, 0, m, n, dns(r, m, n - 1)); });
    L("SetSubMatrixTranspose rows", [&]() { A.SetSubMatrixTranspose(r.range(1, m), 0, dns(r, n, m)); });
    L("SetSubMatrixTranspose columns", [&]() { A.SetSubMatrixTranspose(0, r.range(1, n), dns(r, n, m)); });
    L("SetSubMatrixTranspose too small a source", [&]() { A.SetSubMatrixTranspose(0, 0, m, n, dns(r, n, m - 1)); });
    if (m != n) L("SetSubMatrixTranspose untransposed source", [&]() { A.SetSubMatrixTranspose(0, 0, m, n, dns(r, m, n)); });
    L("AddSubMatrix row", [&]() { std::vector<int> i(2, gi), j(2, gj); i[r.range(0, 1)] = bm; A.AddSubMatrix(i, j, dns(r, 2, 2)); });
    L("AddSubMatrix column", [&]() { std::vector<int> i(2, gi), j(2, gj); j[r.range(0, 1)] = bn; A.AddSubMatrix(i, j, dns(r, 2, 2)); });
    L("AddSubMatrix source rows", [&]() { std::vector<int> i(2, gi), j(2, gj); A.AddSubMatrix(i, j, dns(r, off(r, 2), 2)); });
    L("AddSubMatrix source columns", [&]() { std::vector<int> i(2, gi), j(2, gj); A.AddSubMatrix(i, j, dns(r, 2, off(r, 2))); });
    if (m != n) L("Invert of a rectangle", [&]() { A.Invert(); });
    if (m != n) L("Invert into of a rectangle", [&]() { DenseMatrix o; A.Invert(o); });
    if (m != n) L("GetDiag of a rectangle", [&]() { use_all(A.GetDiag()); });
    L("GetDiag into", [&]() { DenseMatrix S = dns(r, m, m); std::vector<double> d(om); S.GetDiag(d); });
    L("ScaleRows too short", [&]() { A.ScaleRows(std::vector<double>(m - 1, 2.0)); });
    L("ScaleRows too long", [&]() { A.ScaleRows(std::vector<double>(m + 1, 2.0)); });
    L("ScaleCols too short", [&]() { A.ScaleCols(std::vector<double>(n - 1, 2.0)); });
    L("ScaleCols too long", [&]() { A.ScaleCols(std::vector<double>(n + 1, 2.0)); });
    L("InverseScaleRows too short", [&]() { A.InverseScaleRows(std::vector<double>(m - 1, 2.0)); });
    L("InverseScaleRows too long", [&]() { A.InverseScaleRows(std::vector<double>(m + 1, 2.0)); });
    L("InverseScaleCols too short", [&]() { A.InverseScaleCols(std::vector<double>(n - 1, 2.0)); });
    L("InverseScaleCols too long", [&]() { A.InverseScaleCols(std::vector<double>(n + 1, 2.0)); });
    L("ScaleRows vector size", [&]() { A.ScaleRows(vec<double>(r, om)); });
    L("ScaleCols vector size", [&]() { A.ScaleCols(vec<double>(r, on)); });
    L("InverseScaleRows vector size", [&]() { A.InverseScaleRows(vec<double>(r, om)); });
    L("InverseScaleCols vector size", [&]() { A.InverseScaleCols(vec<double>(r, on)); });
    L("InverseScaleRows zero", [&]() { std::vector<double> s(m, 2.0); s[gi] = 0; A.InverseScaleRows(s); });
    L("InverseScaleCols zero", [&]() { std::vector<double> s(n, 2.0); s[gj] = 0; A.InverseScaleCols(s); });
    L("HStack rows", [&]() { std::vector<DenseMatrix> q; q.push_back(A); q.push_back(dns(r, om, n)); use_dense(HStack(q)); });
    L("HStack rows of an early part", [&]() { std::vector<DenseMatrix> q; q.push_back(dns(r, om, p)); q.push_back(A); q.push_back(A); use_dense(HStack(q)); });
    L("HStack rows of a part without columns", [&]() { std::vector<DenseMatrix> q; q.push_back(A); q.push_back(DenseMatrix(om, 0)); q.push_back(A); use_dense(HStack(q)); });
    L("HStack rows of the last part without columns", [&]() { std::vector<DenseMatrix> q; q.push_back(A); q.push_back(DenseMatrix(om, 0)); DenseMatrix o; HStack(q, o); });
    L("Max of an empty dense matrix", [&]() { DenseMatrix e; use(e.Max()); });
    L("Min of an empty dense matrix", [&]() { DenseMatrix e; use(e.Min()); });
    {
        // ranges [a, b) with a bound outside the matrix or reversed, empty ranges included
        int kind = r.range(0, 4); bool byrow = r.chance(1, 2); int lim = byrow ? m : n, a = 0, b = 0, away = r.range(1, 20);
        if (kind == 0) a = b = lim + away;
        else if (kind == 1) a = b = -away;
        else if (kind == 2) { a = r.range(1, lim); b = r.range(0, a - 1); }
        else if (kind == 3) { a = r.range(0, lim); b = lim + away; }
        else { a = -away; b = r.range(0, lim); }
        int si = byrow ? a : 0, ei = byrow ? b : (r.chance(1, 3) ? 0 : m), sj = byrow ? 0 : a, ej = byrow ? (r.chance(1, 3) ? 0 : n) : b;
        int sh = std::max(0, ei - si), sw = std::max(0, ej - sj);
        L("GetSubMatrix range", [=]() { use_dense(CA.GetSubMatrix(si, sj, ei, ej)); });
        L("GetSubMatrix range into", [=]() { DenseMatrix o(1, 1); CA.GetSubMatrix(si, sj, ei, ej, o); use_dense(o); });
        L("SetSubMatrix range", [=, &A]() { A.SetSubMatrix(si, sj, ei, ej, DenseMatrix(sh, sw)); });
        L("SetSubMatrixTranspose range", [=, &A]() { A.SetSubMatrixTranspose(si, sj, ei, ej, DenseMatrix(sw, sh)); });
        L("GetRow range into", [=]() { DenseMatrix o(2, 2); if (byrow) CA.GetRow(a, b, o); else CA.GetCol(a, b, o); use_dense(o); });
        L("SetSubMatrix of nothing outside", [=, &A]() { A.SetSubMatrix(m + away, 0, DenseMatrix(0, n)); });
        L("SetSubMatrixTranspose of nothing outside", [=, &A]() { A.SetSubMatrixTranspose(0, n + away, DenseMatrix(0, m)); });
    }
    L("eigen solve of a rectangle", [&]() { EigenSolver E; auto q = E.Solve(dns(r, m, m + 1), 1.0, 1); use_all(q.first); });
    decide(c, L, 3);
}

template <typename T>
void sparse(Ctx& c)
{
    Rng& r = c.r;
    const int m = r.range(1, 8), n = r.range(1, 8), p = r.range(1, 6);
    const int bm = bad(r, m), bn = bad(r, n), om = off(r, m), on = off(r, n), gi = r.range(0, m - 1), gj = r.range(0, n - 1);
    c.describe("sparse %dx%d, bad row %d, bad column %d, sizes %d %d", m, n, bm, bn, om, on); c.mix(m); c.mix(n); c.mix((uint64_t)bm); c.mix((uint64_t)bn); c.mix(om); c.mix(on); c.nontrivial = true;
    SparseMatrix<T> A = full_sp<T>(r, m, n), S = full_sp<T>(r, m, m); const SparseMatrix<T> CA(A);
    std::vector<int> ptr(A.GetIndptr()), ind(A.GetIndices()); std::vector<T> dat(A.GetData());
    Calls L;
    L("sparse from short row pointers", [&]() { ptr.pop_back(); SparseMatrix<T> B(ptr, ind, dat, m, n); use_sp(B); });
    L("sparse from long row pointers", [&]() { ptr.push_back(ptr.back()); SparseMatrix<T> B(ptr, ind, dat, m, n); use_sp(B); });
    L("sparse from short indices", [&]() { ind.pop_back(); SparseMatrix<T> B(ptr, ind, dat, m, n); use_sp(B); });
    L("sparse from short values", [&]() { dat.pop_back(); SparseMatrix<T> B(ptr, ind, dat, m, n); use_sp(B); });
    L("sparse from a wrong first pointer", [&]() { ptr[0] = r.chance(1, 2) ? 1 : -1; SparseMatrix<T> B(ptr, ind, dat, m, n); use_sp(B); });
    L("sparse from a wrong last pointer", [&]() { ptr[m] += r.chance(1, 2) ? 1 : -1; SparseMatrix<T> B(ptr, ind, dat, m, n); use_sp(B); });
    L("GetIndices row", [&]() { use_all(CA.GetIndices(bm)); });
    L("GetIndicesView row", [&]() { use_all(A.GetIndicesView(bm)); });
    L("const GetIndicesView row", [&]() { use_all(CA.GetIndicesView(bm)); });
    L("GetData row", [&]() { use_all(CA.GetData(bm)); });
    L("RowSize row", [&]() { use(CA.RowSize(bm)); });
    L("sparse Mult input", [&]() { use_all(A.Mult(vec<double>(r, on))); });
    L("sparse Mult output", [&]() { Vector<double> o(om); VectorView<double> ov(o); A.Mult(vec<double>(r, n), ov); });
    L("sparse MultAT input", [&]() { use_all(as_op(A).MultAT(vec<double>(r, om))); });
    L("sparse MultAT output", [&]() { Vector<double> o(on); VectorView<double> ov(o); A.MultAT(vec<double>(r, m), ov); });
    L("sparse Mult as operator", [&]() { const Operator& O = A; Vector<double> o(m); VectorView<double> ov(o); O.Mult(vec<double>(r, on), ov); });
    L("sparse MultAT as operator", [&]() { const Operator& O = A; Vector<double> o(on); VectorView<double> ov(o); O.MultAT(vec<double>(r, m), ov); });
    L("sparse InnerProduct", [&]() { use(A.InnerProduct(vec<double>(r, on), vec<double>(r, m))); });
    L("sparse Mult dense", [&]() { use_dense(A.Mult(dns(r, on, p))); });
    L("sparse MultAT dense", [&]() { use_dense(A.MultAT(dns(r, om, p))); });
    L("sparse MultCT dense", [&]() { use_dense(A.MultCT(dns(r, on, p))); });
    L("sparse Mult dense into", [&]() { DenseMatrix o(m, p); A.Mult(dns(r, on, p), o); });
    L("sparse MultAT dense into", [&]() { DenseMatrix o(n, p); A.MultAT(dns(r, om, p), o); });
    L("sparse MultCT dense into", [&]() { DenseMatrix o(p, m); A.MultCT(dns(r, on, p), o); });
    L("sparse Mult sparse", [&]() { use_sp(A.template Mult<T, T>(full_sp<T>(r, on, p))); });
    L("sparse Mult sparse with work array", [&]() { std::vector<int> k(p, -1); use_sp(A.template Mult<T, T>(full_sp<T>(r, on, p), k)); });
    L("GetSubMatrix row", [&]() { std::vector<int> i(1, bm), j(1, gj), k(n, -1); use_sp(A.GetSubMatrix(i, j, k)); });
    L("GetSubMatrix column", [&]() { std::vector<int> i(1, gi), j(1, bn), k(n, -1); use_sp(A.GetSubMatrix(i, j, k)); });
    L("GetSubMatrix without work array row", [&]() { std::vector<int> i(1, bm), j(1, gj); use_sp(A.GetSubMatrix(i, j)); });
    L("GetSubMatrix without work array column", [&]() { std::vector<int> i(1, gi), j(1, bn); use_sp(A.GetSubMatrix(i, j)); });
    L("GetSubMatrix work array", [&]() { std::vector<int> i(1, gi), j(1, n - 1), k(n - 1, -1); use_sp(A.GetSubMatrix(i, j, k)); });
    if (m != n) L("GetDiag of a rectangle", [&]() { use_all(A.GetDiag()); });
    if (m != n) L("AddDiag of a rectangle", [&]() { A.AddDiag(std::vector<T>(m, (T)1)); });
    if (m != n) L("AddDiag of one value to a rectangle", [&]() { A.AddDiag((T)2); });
    if (m != n) L("EliminateRowCol marker of a rectangle", [&]() { std::vector<int> k(m + n, 0); k[r.range(0, m + n - 1)] = 1; A.EliminateRowCol(k); });
    if (m != n) L("EliminateRowCol index of a rectangle", [&]() { A.EliminateRowCol(std::max(m, n) - 1); });
    L("AddDiag size", [&]() { S.AddDiag(std::vector<T>(om, (T)1)); });
    L("ScaleRows size", [&]() { A.ScaleRows(std::vector<T>(om, (T)2)); });
    L("ScaleCols size", [&]() { A.ScaleCols(std::vector<T>(on, (T)2)); });
    L("InverseScaleRows size", [&]() { A.InverseScaleRows(std::vector<T>(om, (T)1)); });
    L("InverseScaleCols size", [&]() { A.InverseScaleCols(std::vector<T>(on, (T)1)); });
    L("ScaleRows matrix size", [&]() { A.ScaleRows(SparseMatrix<T>(std::vector<T>(om, (T)2))); });
    L("ScaleCols matrix size", [&]() { A.ScaleCols(SparseMatrix<T>(std::vector<T>(on, (T)2))); });
    L("InverseScaleRows zero", [&]() { std::vector<T> s(m, (T)1); int q = gi; for (int i = 0; i < m; ++i) if (A.RowSize(i)) q = i; s[q] = 0; if (!A.RowSize(q)) A.InverseScaleRows(std::vector<T>(m + 1, (T)1)); A.InverseScaleRows(s); });
    L("InverseScaleCols zero", [&]() { std::vector<T> s(n, (T)1); s[A.GetIndices()[0]] = 0; A.InverseScaleCols(s); });
    L("sparse /= 0", [&]() { A /= (T)0; });
    L("PermuteCols size", [&]() { std::vector<int> q(on); for (int i = 0; i < on; ++i) q[i] = i < n ? i : 0; A.PermuteCols(q); });
    L("EliminateRow index", [&]() { A.EliminateRow(bm); });
    L("EliminateCol index", [&]() { A.EliminateCol(bn); });
    L("EliminateRowCol index", [&]() { S.EliminateRowCol(bm); });
    L("EliminateRowCol marker", [&]() { std::vector<int> k(m - 1, 1); S.EliminateRowCol(k); });
    L("EliminateCol marker", [&]() { std::vector<int> k(n - 1, 1); A.EliminateCol(k); });
    L("EliminateCol marker with vectors", [&]() { std::vector<int> k(m - 1, 1); Vector<double> x = vec<double>(r, m), b = vec<double>(r, m); S.EliminateCol(k, x, b); });
    L("EliminateCol x size", [&]() { std::vector<int> k(m, 1); Vector<double> x = vec<double>(r, om), b = vec<double>(r, m); S.EliminateCol(k, x, b); });
    L("EliminateCol b size", [&]() { std::vector<int> k(m, 1); Vector<double> x = vec<double>(r, m), b = vec<double>(r, om); S.EliminateCol(k, x, b); });
    decide(c, L, 3);
}
FAMILY(cs_d, "contract.sparse.double", 25, false) { sparse<double>(c); }
FAMILY(cs_i, "contract.sparse.int", 25, false) { sparse<int>(c); }

template <typename M>
void triplet(Ctx& c, Calls& L, M& A, M& F, int m, int n)
{
    Rng& r = c.r;
    const int bm = bad(r, m), bn = bad(r, n), om = off(r, m), on = off(r, n), gi = r.range(0, m - 1), gj = r.range(0, n - 1);
    c.describe("triplets %dx%d, bad row %d, bad column %d", m, n, bm, bn); c.mix(m); c.mix(n); c.mix((uint64_t)bm); c.mix((uint64_t)bn); c.mix(om); c.mix(on); c.nontrivial = true;
    L("Add row", [&A, bm, gj]() { A.Add(bm, gj, 1); });
    L("Add column", [&A, bn, gi]() { A.Add(gi, bn, 1); });
    L("Add negative row, no size declared", [&F, gj]() { F.Add(-1 - gj, gj, 1); });
    L("Add negative column, no size declared", [&F, gi]() { F.Add(gi, -1 - gi, 1); });
    L("AddSym row", [&A, bm, gj]() { A.AddSym(bm, gj, 1); });
    L("AddSym column", [&A, bn, gi]() { A.AddSym(gi, bn, 1); });
    L("Add block row index", [&A, bm, gj, gi]() { std::vector<int> i(2, gi), j(1, gj); i[1] = bm; DenseMatrix D(2, 1); D = 1.0; A.Add(i, j, D); });
    L("Add block column index", [&A, bn, gj, gi]() { std::vector<int> i(1, gi), j(2, gj); j[1] = bn; DenseMatrix D(1, 2); D = 1.0; A.Add(i, j, D); });
    L("Add block rows", [&A, gj, gi]() { std::vector<int> i(2, gi), j(2, gj); DenseMatrix D(1, 2); D = 1.0; A.Add(i, j, D); });
    L("Add block columns", [&A, gj, gi]() { std::vector<int> i(2, gi), j(2, gj); DenseMatrix D(2, 1); D = 1.0; A.Add(i, j, D); });
    L("Add block too many rows", [&A, gj, gi]() { std::vector<int> i(2, gi), j(2, gj); DenseMatrix D(3, 2); D = 1.0; A.Add(i, j, D); });
    L("Add block too many columns", [&A, gj, gi]() { std::vector<int> i(2, gi), j(2, gj); DenseMatrix D(2, 3); D = 1.0; A.Add(i, j, D); });
    L("Add symmetric block size", [&A]() { std::vector<int> i(2, 0); DenseMatrix D(1, 1); D = 1.0; A.Add(i, D); });
    L("triplet Mult input", [&A, &r, on]() { use_all(as_op(A).Mult(vec<double>(r, on))); });
    L("triplet Mult output", [&A, &r, n, om]() { Vector<double> o(om); VectorView<double> v(o); as_op(A).Mult(vec<double>(r, n), v); });
    L("triplet MultAT input", [&A, &r, om]() { use_all(as_op(A).MultAT(vec<double>(r, om))); });
    L("triplet MultAT output", [&A, &r, m, on]() { Vector<double> o(on); VectorView<double> v(o); as_op(A).MultAT(vec<double>(r, m), v); });
}
template <typename T>
void coo(Ctx& c)
{
    Rng& r = c.r; int m = r.range(1, 8), n = r.range(1, 8);
    CooMatrix<T> A(m, n), F; for (int k = 0; k < 5; ++k) A.Add(r.range(0, m - 1), r.range(0, n - 1), (T)2);
    A.Add(m - 1, n - 1, (T)1); F.Add(m - 1, n - 1, (T)1);
    Calls L; triplet(c, L, A, F, m, n);
    const int bm = bad(r, m), bn = bad(r, n), gi = r.range(0, m - 1), gj = r.range(0, n - 1);
    L("PermuteRows size", [&]() { std::vector<int> q(m - 1, 0); A.PermuteRows(q); });
    L("PermuteCols size", [&]() { std::vector<int> q(n - 1, 0); A.PermuteCols(q); });
    L("PermuteRowsCols row size", [&]() { std::vector<int> q(m - 1, 0), s(n, 0); A.PermuteRowsCols(q, s); });
    L("PermuteRowsCols column size", [&]() { std::vector<int> q(m, 0), s(n - 1, 0); A.PermuteRowsCols(q, s); });
    L("scaled block rows", [&]() { std::vector<int> i(2, gi), j(2, gj); DenseMatrix D(1, 2); D = 1.0; A.Add(i, j, (T)2, D); });
    L("scaled block columns", [&]() { std::vector<int> i(2, gi), j(2, gj); DenseMatrix D(2, 1); D = 1.0; A.Add(i, j, (T)2, D); });
    L("scaled block row index", [&]() { std::vector<int> i(2, gi), j(2, gj); i[1] = bm; DenseMatrix D(2, 2); D = 1.0; A.Add(i, j, (T)2, D); });
    L("Add column of values size", [&]() { std::vector<int> i(2, gi); A.Add(i, gj, vec<T>(r, 1)); });
    L("Add column of values row", [&]() { std::vector<int> i(2, gi); i[1] = bm; A.Add(i, gj, vec<T>(r, 2)); });
    L("Add column of values column", [&]() { std::vector<int> i(2, gi); A.Add(i, bn, vec<T>(r, 2)); });
    L("Add row of values size", [&]() { std::vector<int> j(2, gj); A.Add(gi, j, vec<T>(r, 1)); });
    L("Add row of values column", [&]() { std::vector<int> j(2, gj); j[1] = bn; A.Add(gi, j, vec<T>(r, 2)); });
    L("Add row of values row", [&]() { std::vector<int> j(2, gj); A.Add(bm, j, vec<T>(r, 2)); });
    L("Add scaled column size", [&]() { std::vector<int> i(2, gi); A.Add(i, gj, (T)2, vec<T>(r, 1)); });
    L("Add scaled row size", [&]() { std::vector<int> j(2, gj); A.Add(gi, j, (T)2, vec<T>(r, 1)); });
    const int more = r.range(3, 12);
    L("Add column of too many values", [&, more]() { std::vector<int> i(2, gi); A.Add(i, gj, vec<T>(r, more)); });
    L("Add row of too many values", [&, more]() { std::vector<int> j(2, gj); A.Add(gi, j, vec<T>(r, more)); });
    L("Add scaled column of too many values", [&, more]() { std::vector<int> i(2, gi); A.Add(i, gj, (T)2, vec<T>(r, more)); });
    L("Add scaled row of too many values", [&, more]() { std::vector<int> j(2, gj); A.Add(gi, j, (T)2, vec<T>(r, more)); });
    L("Add list of too many values", [&, more]() { std::vector<int> i(2, gi), j(2, gj); A.Add(i, j, vec<T>(r, more)); });
    L("Add scaled list of too many values", [&, more]() { std::vector<int> i(2, gi), j(2, gj); A.Add(i, j, (T)2, vec<T>(r, more)); });
    L("Add list of too few columns", [&, more]() { std::vector<int> i(more, gi), j(2, gj); A.Add(i, j, vec<T>(r, more)); });
    L("Add list of too few rows", [&, more]() { std::vector<int> i(2, gi), j(more, gj); A.Add(i, j, vec<T>(r, more)); });
    L("Add list of too many columns", [&, more]() { std::vector<int> i(2, gi), j(more, gj); A.Add(i, j, vec<T>(r, 2)); });
    L("Add scaled list of too many rows", [&, more]() { std::vector<int> i(more, gi), j(2, gj); A.Add(i, j, (T)2, vec<T>(r, 2)); });
    L("Add scaled list of too many columns", [&, more]() { std::vector<int> i(2, gi), j(more, gj); A.Add(i, j, (T)2, vec<T>(r, 2)); });
    L("Add list values size", [&]() { std::vector<int> i(2, gi), j(2, gj); A.Add(i, j, vec<T>(r, 1)); });
    L("Add list columns size", [&]() { std::vector<int> i(2, gi), j(1, gj); A.Add(i, j, vec<T>(r, 2)); });
    L("Add scaled list values size", [&]() { std::vector<int> i(2, gi), j(2, gj); A.Add(i, j, (T)2, vec<T>(r, 1)); });
    decide(c, L, 3);
}
template <typename T>
void lil(Ctx& c)
{
    Rng& r = c.r; int m = r.range(1, 8), n = r.range(1, 8);
    LilMatrix<T> A(m, n), F; for (int k = 0; k < 5; ++k) A.Add(r.range(0, m - 1), r.range(0, n - 1), (T)2);
    A.Add(m - 1, n - 1, (T)1); F.Add(m - 1, n - 1, (T)1);
    Calls L; triplet(c, L, A, F, m, n);
    decide(c, L, 3);
}
FAMILY(cc_d, "contract.coo.double", 25, false) { coo<double>(c); }
FAMILY(cc_i, "contract.coo.int", 25, false) { coo<int>(c); }
FAMILY(cl_d, "contract.lil.double", 25, false) { lil<double>(c); }
FAMILY(cl_i, "contract.lil.int", 25, false) { lil<int>(c); }

std::vector<int> gen_offsets(Rng& r)
{
    std::vector<int> o(1, 0); int k = r.range(1, 3);
    for (int i = 0; i < k; ++i) o.push_back(o.back() + r.range(1, 4));
    return o;
}
FAMILY(cblock, "contract.block", 25, false)
{
    Rng& r = c.r;
    std::vector<int> ro = gen_offsets(r), co = gen_offsets(r);
    int nb = (int)ro.size() - 1, mb = (int)co.size() - 1, m = ro.back(), n = co.back();
    BlockMatrix<double> A(ro, co); BlockOperator B(ro, co);
    std::vector<std::unique_ptr<DenseMatrix>> keep;
    for (int i = 0; i < nb; ++i) for (int j = 0; j < mb; ++j)
    {
        A.SetBlock(i, j, full_sp<double>(r, ro[i + 1] - ro[i], co[j + 1] - co[j]));
        keep.emplace_back(new DenseMatrix(dns(r, ro[i + 1] - ro[i], co[j + 1] - co[j])));
        B.SetBlock(i, j, *keep.back());
    }
    int bi = bad(r, nb), bj = bad(r, mb), gi = r.range(0, nb - 1), gj = r.range(0, mb - 1), om = off(r, m), on = off(r, n);
    int rh = ro[gi + 1] - ro[gi], cw = co[gj + 1] - co[gj], orh = off(r, rh), ocw = off(r, cw);
    c.describe("blocks %dx%d of %dx%d, bad block %d %d", nb, mb, m, n, bi, bj); c.mix(nb); c.mix(mb); c.mix(m); c.mix(n); c.mix((uint64_t)bi); c.mix((uint64_t)bj); c.nontrivial = true;
    SparseMatrix<double> sr = full_sp<double>(r, orh, cw), sc = full_sp<double>(r, rh, ocw), sg = full_sp<double>(r, rh, cw);
    DenseMatrix dr = dns(r, orh, cw), dc = dns(r, rh, ocw), dg = dns(r, rh, cw);
    Calls L;
    L("block matrix GetBlock row", [&]() { use_sp(A.GetBlock(bi, gj)); });
    L("block matrix GetBlock column", [&]() { use_sp(A.GetBlock(gi, bj)); });
    L("block matrix SetBlock row", [&]() { A.SetBlock(bi, gj, sg); });
    L("block matrix SetBlock column", [&]() { A.SetBlock(gi, bj, sg); });
    L("block matrix SetBlock height", [&]() { A.SetBlock(gi, gj, sr); });
    L("block matrix SetBlock width", [&]() { A.SetBlock(gi, gj, sc); });
    L("block matrix Mult input", [&]() { use_all(A.Mult(vec<double>(r, on))); });
    L("block matrix Mult output", [&]() { Vector<double> o(om); VectorView<double> v(o); A.Mult(vec<double>(r, n), v); });
    L("block matrix MultAT input", [&]() { use_all(as_op(A).MultAT(vec<double>(r, om))); });
    L("block matrix MultAT output", [&]() { Vector<double> o(on); VectorView<double> v(o); A.MultAT(vec<double>(r, m), v); });
    L("block operator GetBlock row", [&]() { use(B.GetBlock(bi, gj) != nullptr); });
    L("block operator GetBlock column", [&]() { use(B.GetBlock(gi, bj) != nullptr); });
    L("block operator SetBlock row", [&]() { B.SetBlock(bi, gj, dg); });
    L("block operator SetBlock column", [&]() { B.SetBlock(gi, bj, dg); });
    L("block operator SetBlock height", [&]() { B.SetBlock(gi, gj, dr); });
    L("block operator SetBlock width", [&]() { B.SetBlock(gi, gj, dc); });
    L("block operator Mult input", [&]() { use_all(B.Mult(vec<double>(r, on))); });
    L("block operator Mult output", [&]() { Vector<double> o(om); VectorView<double> v(o); B.Mult(vec<double>(r, n), v); });
    L("block operator MultAT input", [&]() { use_all(as_op(B).MultAT(vec<double>(r, om))); });
    L("block operator MultAT output", [&]() { Vector<double> o(on); VectorView<double> v(o); B.MultAT(vec<double>(r, m), v); });
    decide(c, L, 3);
}

FAMILY(csolver, "contract.solver", 25, false)
{
    Rng& r = c.r;
    int n = r.range(1, 7), k = off(r, n), w = off(r, n);
    c.describe("solvers of %d with sizes %d and %d", n, k, w); c.mix(n); c.mix(k); c.mix(w); c.nontrivial = true;
    std::vector<double> d(n, 3.0), dk(k, 3.0);
    SparseMatrix<double> A(d), M(d), K(dk), R = full_sp<double>(r, n, n + 1);
    Vector<double> b = vec<double>(r, n), x(n, 0.0), bk = vec<double>(r, k), xk(k, 0.0);
    Calls L;
    L("CG right-hand side", [&]() { CG(A, bk, x, 5, 1e-8, 1e-12, false); });
    L("CG solution", [&]() { CG(A, b, xk, 5, 1e-8, 1e-12, false); });
    L("PCG preconditioner", [&]() { PCG(A, K, b, x, 5, 1e-8, 1e-12, false); });
    L("PCG right-hand side", [&]() { PCG(A, M, bk, x, 5, 1e-8, 1e-12, false); });
    L("PCG solution", [&]() { PCG(A, M, b, xk, 5, 1e-8, 1e-12, false); });
    L("MINRES right-hand side", [&]() { MINRES(A, bk, x, 5, 1e-8, 1e-12, false); });
    L("MINRES solution", [&]() { MINRES(A, b, xk, 5, 1e-8, 1e-12, false); });
    L("PMINRES right-hand side", [&]() { PMINRES(A, M, bk, x, 5, 1e-8, 1e-12, false); });
    L("PMINRES solution", [&]() { PMINRES(A, M, b, xk, 5, 1e-8, 1e-12, false); });
    L("PMINRES preconditioner", [&]() { PMINRES(A, K, b, x, 5, 1e-8, 1e-12, false); });
    L("PCGSolver of a rectangle", [&]() { PCGSolver s(R, 5); Vector<double> o(n + 1, 0.0); s.Mult(b, o); });
    L("MINRESSolver of a rectangle", [&]() { MINRESSolver s(R, 5); Vector<double> o(n + 1, 0.0); s.Mult(b, o); });
    L("PMINRESSolver of a rectangle", [&]() { PMINRESSolver s(R, M, 5); Vector<double> o(n + 1, 0.0); s.Mult(b, o); });
    L("PCGSolver new operator of another size", [&]() { PCGSolver s(A, M, 5); s.SetOperator(K); s.Mult(b, x); });
    L("MINRESSolver right-hand side", [&]() { MINRESSolver s(A, 5); s.Mult(bk, static_cast<VectorView<double>&>(x)); });
    L("PCGSolver right-hand side", [&]() { PCGSolver s(A, 5); s.Mult(bk, static_cast<VectorView<double>&>(x)); });
    L("PCGSolver made for a rectangle", [&]() { PCGSolver s(R, 5); use(s.Rows()); });
    L("PCGSolver made with a preconditioner for a rectangle", [&]() { PCGSolver s(R, M, 5); use(s.Rows()); });
    L("MINRESSolver made for a rectangle", [&]() { MINRESSolver s(R, 5); use(s.Rows()); });
    L("PMINRESSolver made for a rectangle", [&]() { PMINRESSolver s(R, M, 5); use(s.Rows()); });
    L("PCGSolver made with a preconditioner of another size", [&]() { PCGSolver s(A, K, 5); use(s.Rows()); });
    L("PMINRESSolver made with a preconditioner of another size", [&]() { PMINRESSolver s(A, K, 5); use(s.Rows()); });
    L("PCGSolver given an operator of another size", [&]() { PCGSolver s(A, 5); s.SetOperator(K); });
    L("MINRESSolver given an operator of another size", [&]() { MINRESSolver s(A, 5); s.SetOperator(K); });
    L("PMINRESSolver given an operator of another size", [&]() { PMINRESSolver s(A, M, 5); s.SetOperator(K); });
    L("PMINRESSolver right-hand side", [&]() { PMINRESSolver s(A, M, 5); s.Mult(bk, static_cast<VectorView<double>&>(x)); });
    L("PCGSolver solution", [&]() { PCGSolver s(A, M, 5); s.Mult(b, static_cast<VectorView<double>&>(xk)); });
    L("MINRESSolver solution", [&]() { MINRESSolver s(A, 5); s.Mult(b, static_cast<VectorView<double>&>(xk)); });
    L("PMINRESSolver solution", [&]() { PMINRESSolver s(A, M, 5); s.Mult(b, static_cast<VectorView<double>&>(xk)); });
    L("Timer lap index", [&]() { Timer t; int laps = r.range(0, 5); for (int q = 0; q <= laps; ++q) t.Click(); use(t[bad(r, laps)]); });
    L("Timer lap of an unused timer", [&]() { Timer t; use(t[0]); });
    L("Partition into too many parts", [&]() { auto p = Partition(A, n + r.range(1, 9)); use_all(p); });
    L("Partition into no parts", [&]() { auto p = Partition(A, -r.range(0, 3)); use_all(p); });
    L("Partition of a rectangle into parts", [&]() { auto p = Partition(R, std::min(n, 2)); use_all(p); });
    L("direct solver of a rectangle", [&]() { SparseSolver s(R); });
    L("direct solver right-hand side", [&]() { SparseSolver s(A); use_all(s.Mult(bk)); });
    L("direct solver solution", [&]() { SparseSolver s(A); VectorView<double> v(xk); s.Mult(b, v); });
    L("sparse eigen solve of a rectangle", [&]() { EigenSolver E; auto q = E.Solve(R, 1.0, 1); use_all(q.first); });
    L("Partition of a rectangle", [&]() { auto p = Partition(R, 1); use_all(p); });
    decide(c, L, 3);
}
} // namespace
