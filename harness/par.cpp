// The distributed module (C26): ranks are threads over the stand-in of par/; every result is gathered and compared
// with the serial object. Judging happens on the main thread, after all ranks have finished.
#include "sp.hpp"
#include "par/standin.h"
#include "parlinalgcpp.hpp"
using namespace linalgcpp;
using namespace vh;

namespace
{
typedef std::vector<double> Dv;
typedef std::vector<int> Iv;
MPI_Comm WORLD = MPI_COMM_WORLD; // the communicator of the case

// cut points of n items into k non-empty parts
Iv cuts(Rng& r, int n, int k)
{
    Iv o(k + 1, 0);
    std::set<int> in;
    if (r.chance(1, 3)) { for (int i = 1; i < k; ++i) in.insert(i * n / k); }
    if ((int)in.size() != k - 1 || in.count(0)) { in.clear(); while ((int)in.size() < k - 1) in.insert(r.range(1, n - 1)); }
    int q = 1;
    for (int x : in) o[q++] = x;
    o[k] = n;
    return o;
}
std::vector<HYPRE_Int> starts(const Iv& o, int rank) { return std::vector<HYPRE_Int>{o[rank], o[rank + 1], o.back()}; }

struct Piece { SparseMatrix<double> diag, offd; std::vector<HYPRE_Int> map; };
// one rank's share, in any storage order; the column map may hold columns without entries
Piece piece(Rng& r, const SpModel& A, const Iv& ro, const Iv& co, int rank, bool spare)
{
    int r0 = ro[rank], r1 = ro[rank + 1], c0 = co[rank], c1 = co[rank + 1];
    std::set<int> cols;
    for (auto& e : A.e) if (e.first.first >= r0 && e.first.first < r1 && (e.first.second < c0 || e.first.second >= c1)) cols.insert(e.first.second);
    if (spare) for (int j = 0; j < A.n; ++j) if ((j < c0 || j >= c1) && r.chance(1, 4)) cols.insert(j);
    Piece p;
    std::map<int, int> at;
    for (int j : cols) { int k = (int)at.size(); at[j] = k; p.map.push_back(j); }
    SpModel D(r1 - r0, c1 - c0), O(r1 - r0, (int)cols.size());
    for (auto& e : A.e)
    {
        int i = e.first.first, j = e.first.second;
        if (i < r0 || i >= r1) continue;
        if (j >= c0 && j < c1) D.e[std::make_pair(i - r0, j - c0)] = e.second;
        else O.e[std::make_pair(i - r0, at[j])] = e.second;
    }
    p.diag = build_csr<double>(r, D, true);
    p.offd = build_csr<double>(r, O, true);
    return p;
}
struct Dist // a global matrix, its split and the shares
{
    SpModel M;
    Iv ro, co;
    std::vector<Piece> p;
};
Dist deal(Rng& r, const SpModel& M, const Iv& ro, const Iv& co, bool spare = true)
{
    Dist d;
    d.M = M; d.ro = ro; d.co = co;
    for (size_t k = 0; k + 1 < ro.size(); ++k) d.p.push_back(piece(r, M, ro, co, (int)k, spare));
    return d;
}
ParMatrix build(const Dist& d, int k) { return ParMatrix(WORLD, starts(d.ro, k), starts(d.co, k), d.p[k].diag, d.p[k].offd, d.p[k].map); }
// a share, as a rank holds it
struct Held { SparseMatrix<double> diag, offd; std::vector<HYPRE_Int> map, rs, cs; int rows = -1, cols = -1, grows = -1, gcols = -1, nnz = -1, id = -2; };
Held hold(const ParMatrix& A)
{
    Held h;
    h.diag = A.GetDiag(); h.offd = A.GetOffd(); h.map = A.GetColMap(); h.rs = A.GetRowStarts(); h.cs = A.GetColStarts();
    h.rows = A.Rows(); h.cols = A.Cols(); h.grows = A.GlobalRows(); h.gcols = A.GlobalCols(); h.nnz = A.nnz(); h.id = A.GetMyId();
    return h;
}
// the monitor of distributed structure: ownership is a partition, every entry sits in the block it belongs to
SpModel gather(const std::vector<Held>& h, const Iv& ro, const Iv& co, const char* what)
{
    SpModel G(ro.back(), co.back());
    long stored = 0;
    for (size_t k = 0; k < h.size(); ++k)
    {
        const Held& p = h[k];
        CHECK(p.rs == starts(ro, (int)k) && p.cs == starts(co, (int)k), "par-starts", "%s: rank %zu of %zu holds rows [%d,%d) of %d and columns [%d,%d) of %d; expected [%d,%d) of %d and [%d,%d) of %d", what, k, h.size(),
              p.rs.empty() ? -1 : p.rs[0], p.rs.empty() ? -1 : p.rs[1], p.rs.empty() ? -1 : p.rs[2], p.cs.empty() ? -1 : p.cs[0], p.cs.empty() ? -1 : p.cs[1], p.cs.empty() ? -1 : p.cs[2],
              ro[k], ro[k + 1], ro.back(), co[k], co[k + 1], co.back());
        CHECK(p.rows == ro[k + 1] - ro[k] && p.cols == co[k + 1] - co[k] && p.grows == ro.back() && p.gcols == co.back() && p.id == (int)k, "par-shape", "%s: rank %zu reports %dx%d of %dx%d, id %d", what, k, p.rows, p.cols, p.grows, p.gcols, p.id);
        SpModel D = wellformed(p.diag, p.rows, p.cols, what), O = wellformed(p.offd, p.rows, (int)p.map.size(), what);
        for (size_t q = 0; q < p.map.size(); ++q)
        {
            int g = p.map[q];
            CHECK(g >= 0 && g < co.back() && (g < co[k] || g >= co[k + 1]), "par-map", "%s: rank %zu maps off-diagonal column %zu to global column %d, own columns are [%d,%d) of %d", what, k, q, g, co[k], co[k + 1], co.back());
            CHECK(q == 0 || p.map[q - 1] < g, "par-map", "%s: rank %zu: the column map is not increasing at %zu", what, k, q);
        }
        for (auto& e : D.e) G.e[std::make_pair(e.first.first + ro[k], e.first.second + co[k])] = e.second;
        for (auto& e : O.e) G.e[std::make_pair(e.first.first + ro[k], p.map[e.first.second])] = e.second;
        stored += (long)(D.e.size() + O.e.size());
    }
    CHECK((long)G.e.size() == stored, "par-entries", "%s: %ld entries are stored for %zu places", what, stored, G.e.size());
    count("monitor: distributed structure walked");
    return G;
}
void nonzeros(const std::vector<Held>& h, const char* what)
{
    long n = 0;
    for (auto& p : h) n += p.diag.nnz() + p.offd.nnz();
    for (auto& p : h) CHECK(p.nnz == n, "par-nnz", "%s: nnz() is %d, %ld entries are stored", what, p.nnz, n);
}
standin::Outcome run(Ctx& c, int n, const std::function<void(int)>& body)
{
    const bool turned = WORLD != MPI_COMM_WORLD;
    standin::Outcome o = standin::world(n, c.r.next(), [&](int k) { body(turned ? n - 1 - k : k); });
    if (turned) { std::reverse(o.calls.begin(), o.calls.end()); std::reverse(o.thrown.begin(), o.thrown.end()); }
    count("collectives seen", o.collectives);
    count("halo exchanges seen", o.exchanges);
    count("matrix-vector products seen", o.matvecs);
    if (o.teams) count("parallel regions entered by a team", o.teams);
    long calls = 0;
    for (auto& v : o.calls) calls += (long)v.size();
    if (calls) count("solver calls recorded", calls);
    if (!o.misuse.empty()) vh::fail("par-misuse", "%s", o.misuse[0].c_str());
    CHECK(!o.deadlock, "par-deadlock", "the ranks wait for each other for ever");
    for (size_t k = 0; k < o.thrown.size(); ++k) CHECK(o.thrown[k].empty(), "par-thrown", "rank %zu of %d: %s", k, n, o.thrown[k].c_str());
    CHECK(o.live_objects == 0, "par-live", "%ld HYPRE objects are left when every object of the library is gone", o.live_objects);
    return o;
}
void compare(const std::vector<Dv>& got, const Dv& want, const Dv& mag, const Iv& o, const char* key, const char* what)
{
    for (size_t k = 0; k < got.size(); ++k)
    {
        CHECK((int)got[k].size() == o[k + 1] - o[k], key, "%s: rank %zu has %zu entries, expected %d", what, k, got[k].size(), o[k + 1] - o[k]);
        for (int i = o[k]; i < o[k + 1]; ++i)
            CHECK(near(got[k][i - o[k]], want[i], mag[i]), key, "%s: entry %d (rank %zu of %zu) is %.17g, expected %.17g", what, i, k, got.size(), got[k][i - o[k]], want[i]);
    }
    count("monitor: distributed vectors compared");
}
Dv local(const Dv& g, const Iv& o, int k) { return Dv(g.begin() + o[k], g.begin() + o[k + 1]); }
Vector<double> lvec(const Dv& g, const Iv& o, int k) { return Vector<double>(local(g, o, k)); }
Dv take(const VectorView<double>& v) { return Dv(v.begin(), v.end()); }
int ranks(Ctx& c)
{
    WORLD = c.r.chance(1, 3) ? STANDIN_COMM_REVERSED : MPI_COMM_WORLD;
    if (WORLD != MPI_COMM_WORLD) count("cases on a duplicated communicator");
    int k = c.r.range(0, 9);
    return k < 2 ? 1 : k < 5 ? 2 : k < 8 ? 3 : c.r.range(4, 6);
}
int glob(Ctx& c, int n) { int g = std::max(n, c.size(1)); return std::min(g, c.thorough ? 60 : 36); }
Ref absolute(const Ref& A) { Ref B = A; for (double& v : B.a) v = std::fabs(v); return B; }
// applies A both ways; everything lands in y and yt
struct Applied { std::vector<Dv> y, yt; explicit Applied(int n) : y(n), yt(n) {} };
void apply(const ParMatrix& A, const Dv& x, const Dv& z, const Iv& ro, const Iv& co, int k, Applied& out)
{
    Vector<double> y(A.Rows(), std::nan("")), t(A.Cols(), std::nan(""));
    A.Mult(lvec(x, co, k), y);
    A.MultAT(lvec(z, ro, k), t);
    out.y[k] = take(y); out.yt[k] = take(t);
}
void judge(const Applied& a, const Ref& A, const Ref& mag, const Dv& x, const Dv& z, const Iv& ro, const Iv& co, const char* key, const char* what)
{
    Dv ax(x), az(z);
    for (double& v : ax) v = std::fabs(v);
    for (double& v : az) v = std::fabs(v);
    compare(a.y, matvec(A, x), matvec(mag, ax), ro, key, what);
    compare(a.yt, matvec(transpose(A), z), matvec(transpose(mag), az), co, key, what);
}
// a square matrix with a full diagonal, diagonally dominant and symmetric when asked
SpModel spd(Rng& r, int n, bool sym, bool dominant)
{
    SpModel M(n, n);
    int m = r.range(0, 3 * n);
    for (int q = 0; q < m; ++q)
    {
        int i = r.range(0, n - 1), j = r.range(0, n - 1);
        if (i == j) continue;
        double v = r.range(-8, 8) / 4.0;
        if (v == 0) continue;
        M.e[std::make_pair(i, j)] = v;
        if (sym) M.e[std::make_pair(j, i)] = v;
    }
    Dv s(n, 0.0);
    for (auto& e : M.e) s[e.first.first] += std::fabs(e.second);
    for (int i = 0; i < n; ++i) M.e[std::make_pair(i, i)] = dominant ? s[i] + r.range(1, 8) / 2.0 : r.range(1, 12) / 2.0;
    return M;
}
Dv dense_solve(Ref A, Dv b)
{
    int n = A.m;
    for (int p = 0; p < n; ++p)
    {
        int q = p;
        for (int i = p + 1; i < n; ++i) if (std::fabs(A(i, p)) > std::fabs(A(q, p))) q = i;
        for (int j = 0; j < n; ++j) std::swap(A(p, j), A(q, j));
        std::swap(b[p], b[q]);
        for (int i = p + 1; i < n; ++i)
        {
            double f = A(i, p) / A(p, p);
            for (int j = p; j < n; ++j) A(i, j) -= f * A(p, j);
            b[i] -= f * b[p];
        }
    }
    for (int i = n - 1; i >= 0; --i) { for (int j = i + 1; j < n; ++j) b[i] -= A(i, j) * b[j]; b[i] /= A(i, i); }
    return b;
}
double norm(const Dv& v) { double s = 0; for (double x : v) s += x * x; return std::sqrt(s); }
} // namespace

// ------------------------------------------------------------------- products
FAMILY(products, "par.products", 25)
{
    Rng& r = c.r;
    int n = ranks(c), m = glob(c, n), w = r.chance(1, 2) ? m : glob(c, n), mode = r.range(0, 2);
    Iv ro = cuts(r, m, n), co = m == w && r.chance(1, 2) ? ro : cuts(r, w, n);
    int form = r.range(0, 5);
    SpModel M = gen_sp(c, m, w, mode);
    if (form == 1 || form == 3 || form == 4) // block diagonal forms
    {
        SpModel B(m, w);
        if (form == 3) { co = ro; B = SpModel(m, m); }
        for (int k = 0; k < n; ++k) for (int q = 0; q < 3 * (ro[k + 1] - ro[k]); ++q) B.e[std::make_pair(r.range(ro[k], ro[k + 1] - 1), r.range(co[k], co[k + 1] - 1))] = gen_val(r, mode);
        M = B;
        w = M.n;
    }
    c.describe("%d ranks, %dx%d, %zu entries, constructor %d", n, m, w, M.e.size(), form);
    c.nontrivial = n > 1 && M.e.size() > 2;
    c.mix(n); c.mix(m); c.mix(w); c.mix(M.e.size()); c.mix(form); c.mix(r.s);
    Dist d = deal(r, M, ro, co, form == 0 || form == 2 || form == 5);
    Dv x = gen_vec<double>(r, w, mode), z = gen_vec<double>(r, m, mode);
    bool fix = r.chance(1, 2); // the same matrix object is used again after other calls
    STEP("constructing and applying");
    Applied a1(n), a2(n), a3(n), a4(n);
    std::vector<Held> h(n);
    Iv gs(n, -1), gst(n, -1);
    run(c, n, [&](int k)
    {
        std::vector<HYPRE_Int> rs = starts(ro, k), cs = starts(co, k);
        const Piece& p = d.p[k];
        std::unique_ptr<ParMatrix> A;
        switch (form)
        {
            case 1: A.reset(new ParMatrix(WORLD, p.diag)); break;
            case 2: A.reset(new ParMatrix(WORLD, p.diag, p.offd, p.map)); break;
            case 3: A.reset(new ParMatrix(WORLD, rs, p.diag)); break;
            case 4: A.reset(new ParMatrix(WORLD, rs, cs, p.diag)); break;
            default: A.reset(new ParMatrix(WORLD, rs, cs, p.diag, p.offd, p.map));
        }
        h[k] = hold(*A);
        apply(*A, x, z, ro, co, k, a1);
        Vector<double> ret = A->Mult(lvec(x, co, k)), rett = A->MultAT(lvec(z, ro, k));
        a2.y[k] = take(ret); a2.yt[k] = take(rett);
        ParVector px(WORLD, lvec(x, co, k), cs), pz(WORLD, lvec(z, ro, k), rs), py(WORLD, 3.0, rs), pt(WORLD, std::nan(""), cs);
        A->Mult(px, py);
        A->MultAT(pz, pt);
        a3.y[k] = take(py); a3.yt[k] = take(pt);
        ParVector qy = A->Mult(px), qt = A->MultAT(pz);
        a4.y[k] = take(qy); a4.yt[k] = take(qt);
        gs[k] = qy.GlobalSize(); gst[k] = qt.GlobalSize();
        if (fix) apply(*A, x, z, ro, co, k, a1);
    });
    STEP("comparing");
    SpModel G = gather(h, ro, co, "constructed matrix");
    same_sp(G, M, "par-construct", "constructed matrix");
    nonzeros(h, "constructed matrix");
    Ref R = M.dense(), B = absolute(R);
    judge(a1, R, B, x, z, ro, co, "par-product", "product into a view");
    judge(a2, R, B, x, z, ro, co, "par-product", "returned product");
    judge(a3, R, B, x, z, ro, co, "par-product", "product of distributed vectors");
    judge(a4, R, B, x, z, ro, co, "par-product", "returned distributed product");
    for (int k = 0; k < n; ++k) CHECK(gs[k] == m && gst[k] == w, "par-product", "the returned distributed vectors have global sizes %d and %d, expected %d and %d", gs[k], gst[k], m, w);
}

// -------------------------------------------------------------------- algebra
FAMILY(algebra, "par.algebra", 25)
{
    Rng& r = c.r;
    int n = ranks(c), mode = r.range(0, 2);
    int m = glob(c, n), q = r.chance(1, 2) ? m : glob(c, n), w = r.chance(1, 2) ? m : glob(c, n);
    Iv a = cuts(r, m, n), b = q == m && r.chance(1, 2) ? a : cuts(r, q, n), e = w == m && r.chance(1, 2) ? a : w == q && r.chance(1, 2) ? b : cuts(r, w, n);
    SpModel MA = gen_sp(c, m, q, mode), MB = gen_sp(c, q, w, mode), MC = gen_sp(c, m, q, mode);
    int what = r.range(0, 5);
    c.describe("%d ranks, %dx%d and %dx%d, operation %d", n, m, q, q, w, what);
    c.nontrivial = n > 1 && MA.e.size() > 2 && MB.e.size() > 2;
    c.mix(n); c.mix(m); c.mix(q); c.mix(w); c.mix(what); c.mix(r.s);
    Dist A = deal(r, MA, a, b), B = deal(r, MB, b, e), C = deal(r, MC, a, b);
    double al = gen_val(r, mode), be = gen_val(r, mode);
    int markers = r.range(0, 2);
    Iv ro, co;
    Ref want, mag, RA = MA.dense(), RB = MB.dense(), RC = MC.dense();
    Dist S; // square, between two restrictions, for the triple product
    std::function<ParMatrix(int)> op;
    STEP("computing");
    bool twin = r.chance(1, 3);
    if (what == 0) // transpose
    {
        ro = b; co = a; want = transpose(RA); mag = absolute(want);
        op = [&](int k) { ParMatrix P = build(A, k); return twin ? linalgcpp::Transpose(P) : P.Transpose(); };
    }
    else if (what == 1) // product
    {
        ro = a; co = e; want = multiply(RA, RB, &mag);
        op = [&](int k) { ParMatrix P = build(A, k), Q = build(B, k); return markers == 0 ? P.Mult(Q) : markers == 1 ? P * Q : linalgcpp::Mult(P, Q); };
    }
    else if (what == 2) // triple product R^T A P
    {
        S = deal(r, gen_sp(c, m, m, mode), a, a);
        ro = b; co = b;
        Ref t = multiply(S.M.dense(), RA), tm = multiply(absolute(S.M.dense()), absolute(RA));
        want = multiply(transpose(RC), t); mag = multiply(transpose(absolute(RC)), tm);
        if (twin) { want = multiply(transpose(RA), t); mag = multiply(transpose(absolute(RA)), tm); }
        op = [&](int k) { ParMatrix P = build(A, k), R = build(C, k), s = build(S, k); return twin ? RAP(s, P) : RAP(R, s, P); };
    }
    else if (what == 3 || what == 4) // sums and differences
    {
        bool plain = r.chance(1, 4);
        if (plain) al = be = 1.0;
        bool minus = what == 4;
        ro = a; co = b; want = Ref(m, q); mag = Ref(m, q);
        for (int i = 0; i < m; ++i) for (int j = 0; j < q; ++j) { want(i, j) = al * RA(i, j) + (minus ? -be : be) * RC(i, j); mag(i, j) = std::fabs(al * RA(i, j)) + std::fabs(be * RC(i, j)); }
        op = [&, plain, minus](int k) -> ParMatrix
        {
            ParMatrix P = build(A, k), Q = build(C, k);
            if (plain && markers == 0) return minus ? ParSub(P, Q) : ParAdd(P, Q);
            if (markers == 1) return minus ? ParSub(al, P, be, Q) : ParAdd(al, P, be, Q);
            std::vector<int> mk(q + (k % 2), k % 3 - 1); // left over from an earlier use
            ParMatrix first = minus ? ParSub(al, Q, be, P, mk) : ParAdd(al, Q, be, P, mk);
            return minus ? ParSub(al, P, be, Q, mk) : ParAdd(al, P, be, Q, mk);
        };
    }
    else // scalings, then a chain
    {
        ro = b; co = a; want = Ref(q, m); mag = Ref(q, m);
        for (int i = 0; i < m; ++i) for (int j = 0; j < q; ++j) { want(j, i) = -(al * RA(i, j)); mag(j, i) = std::fabs(want(j, i)); }
        op = [&](int k) { ParMatrix P = build(A, k); P *= al; ParMatrix N = -P; ParMatrix T = N.Transpose(); return T.Transpose().Transpose(); };
    }
    std::vector<Held> h(n);
    Dv x = gen_vec<double>(r, co.back(), mode), z = gen_vec<double>(r, ro.back(), mode);
    Applied ap(n);
    run(c, n, [&](int k) { ParMatrix P = op(k); h[k] = hold(P); apply(P, x, z, ro, co, k, ap); });
    STEP("comparing");
    SpModel G = gather(h, ro, co, "result");
    nonzeros(h, "result");
    same_values(G.dense(), want, &mag, 200, "par-algebra", what == 0 ? "transpose" : what == 1 ? "product" : what == 2 ? "triple product" : what == 3 ? "sum" : what == 4 ? "difference" : "scaled chain");
    Ref wide = mag;
    for (double& v : wide.a) v *= 8;
    judge(ap, want, wide, x, z, ro, co, "par-algebra", "vector product with the result");
}

// -------------------------------------------------------------------- updates
FAMILY(updates, "par.updates", 25)
{
    Rng& r = c.r;
    int n = ranks(c), m = glob(c, n), mode = r.range(0, 1);
    bool square = r.chance(1, 2);
    SpModel M = square ? spd(r, m, r.chance(1, 2), r.chance(1, 2)) : gen_sp(c, m, glob(c, n), mode);
    Iv ro = cuts(r, m, n), co = square ? ro : cuts(r, M.n, n);
    Dist d = deal(r, M, ro, co);
    struct Op { int kind; double v; Dv vs; int idx; };
    std::vector<Op> ops;
    Ref W = M.dense();
    std::vector<std::set<std::pair<int, int>>> unused;
    int nops = r.range(1, 6);
    for (int q = 0; q < nops; ++q)
    {
        Op o;
        o.kind = r.range(square ? 0 : 2, 8); o.v = r.range(-4, 4) / 2.0; o.idx = -1;
        if (o.kind == 8 && o.v == 0) o.v = 2.5; // documented: a constant assignment takes a nonzero value
        for (int i = 0; i < m; ++i) { double v = std::pow(2.0, r.range(-2, 2)); o.vs.push_back(r.chance(1, 2) ? v : -v); }
        if (o.kind == 0) for (int i = 0; i < m; ++i) W(i, i) += o.v;
        if (o.kind == 1) for (int i = 0; i < m; ++i) W(i, i) += o.vs[i];
        if (o.kind == 2 || o.kind == 4) for (int i = 0; i < m; ++i) for (int j = 0; j < M.n; ++j) W(i, j) *= o.vs[i];
        if (o.kind == 3 || o.kind == 5) for (int i = 0; i < m; ++i) for (int j = 0; j < M.n; ++j) W(i, j) /= o.vs[i];
        if (o.kind == 6) { o.idx = r.range(0, m - 1); for (int j = 0; j < M.n; ++j) W(o.idx, j) = 0; }
        if (o.kind == 7) for (double& v : W.a) v *= o.v;
        if (o.kind == 8) { for (auto& e : M.e) W(e.first.first, e.first.second) = o.v; }
        ops.push_back(o);
    }
    c.describe("%d ranks, %dx%d, %zu entries, %d updates, first %d", n, m, M.n, M.e.size(), nops, ops[0].kind);
    c.nontrivial = n > 1 && M.e.size() > 2;
    c.mix(n); c.mix(m); c.mix(M.e.size()); for (auto& o : ops) c.mix(o.kind); c.mix(r.s);
    Dv x = gen_vec<double>(r, M.n, mode), z = gen_vec<double>(r, m, mode), norms(n, -1.0);
    Applied ap(n);
    std::vector<Held> h(n);
    std::vector<std::string> text(n), ref(n);
    STEP("updating");
    run(c, n, [&](int k)
    {
        ParMatrix A = build(d, k);
        for (auto& o : ops)
        {
            Dv l = local(o.vs, ro, k);
            if (o.kind == 0) A.AddDiag(o.v);
            if (o.kind == 1) A.AddDiag(l);
            if (o.kind == 2) A.ScaleRows(l);
            if (o.kind == 3) A.InverseScaleRows(l);
            if (o.kind == 4) A.ScaleRows(SparseMatrix<double>(l));
            if (o.kind == 5) A.InverseScaleRows(SparseMatrix<double>(l));
            if (o.kind == 6 && o.idx >= ro[k] && o.idx < ro[k + 1]) A.EliminateRow(o.idx - ro[k]);
            if (o.kind == 7) A *= o.v;
            if (o.kind == 8) A = o.v;
        }
        h[k] = hold(A);
        apply(A, x, z, ro, co, k, ap);
        norms[k] = A.MaxNorm();
        std::ostringstream os, want;
        A.Print("The matrix", os);
        A.GetDiag().Print("Diag:", want);
        A.GetOffd().Print("Offd:", want);
        want << " ColMap: ";
        for (int g : A.GetColMap()) want << " " << g << " ";
        text[k] = os.str(); ref[k] = "The matrix " + want.str();
    });
    STEP("comparing");
    SpModel G = gather(h, ro, co, "updated matrix");
    same_values(G.dense(), W, nullptr, 16, "par-update", "updated matrix");
    judge(ap, W, absolute(W), x, z, ro, co, "par-update", "product after updates");
    for (int k = 0; k < n; ++k)
    {
        CHECK(near(norms[k], W.maxabs(), W.maxabs(), 8), "par-norm", "rank %d: MaxNorm() is %.17g, expected %.17g", k, norms[k], W.maxabs());
        std::string a, b;
        auto squash = [](const std::string& s) { std::string t; for (char ch : s) if (!std::isspace((unsigned char)ch)) t += ch; return t; };
        a = squash(text[k]); b = squash(ref[k]);
        CHECK(a == b, "par-print", "rank %d prints '%s', expected '%s'", k, a.substr(0, 200).c_str(), b.substr(0, 200).c_str());
    }
}

// ------------------------------------------------------------------- lifetime
FAMILY(lifetime, "par.lifetime", 25)
{
    Rng& r = c.r;
    int n = ranks(c), mode = r.range(0, 1), slots = 4;
    std::vector<Dist> base;
    for (int q = 0; q < 3; ++q)
    {
        int m = glob(c, n), w = r.chance(1, 2) ? m : glob(c, n);
        Iv ro = cuts(r, m, n), co = w == m && r.chance(1, 2) ? ro : cuts(r, w, n);
        base.push_back(deal(r, gen_sp(c, m, w, mode), ro, co));
    }
    struct Op { int kind, a, b; double v; };
    std::vector<Op> ops;
    struct Now { int base; Ref R; double fill; };
    std::vector<Now> s(slots, Now{-1, Ref(), 0});
    auto full = [&](int b) { Now t; t.base = b; t.R = base[b].M.dense(); t.fill = 0; return t; };
    int nops = r.range(3, 14);
    for (int q = 0; q < nops; ++q)
    {
        Op o{r.range(0, 7), r.range(0, slots - 1), r.range(0, slots - 1), r.range(-3, 3) / 2.0};
        if (o.kind == 0) { o.b = r.range(0, 2); s[o.a] = full(o.b); }
        if (o.kind == 1 || o.kind == 2) s[o.a] = s[o.b];                       // copy construct and swap in; copy assign
        if (o.kind == 3) { if (o.a == o.b) continue; s[o.a] = s[o.b]; s[o.b] = Now{-1, Ref(), 0}; } // move assign
        if (o.kind == 4) { if (o.a == o.b) continue; std::swap(s[o.a], s[o.b]); }
        if (o.kind == 5) { if (s[o.a].base < 0) continue; for (double& v : s[o.a].R.a) v *= o.v; }
        if (o.kind == 6) s[o.a] = Now{-1, Ref(), 0};                            // replaced by a default object
        if (o.kind == 7) { s[o.a] = s[o.b]; if (o.a != o.b) s[o.b] = Now{-1, Ref(), 0}; if (o.a == o.b) continue; } // move construct
        ops.push_back(o);
    }
    c.describe("%d ranks, %zu life-cycle steps over %d objects", n, ops.size(), slots);
    c.nontrivial = ops.size() > 3;
    c.mix(n); for (auto& o : ops) { c.mix(o.kind); c.mix(o.a * 8 + o.b); }
    c.mix(r.s);
    std::vector<Applied> ap(slots, Applied(n));
    std::vector<std::vector<Held>> h(slots, std::vector<Held>(n));
    std::vector<Dv> x(slots), z(slots);
    for (int q = 0; q < slots; ++q) if (s[q].base >= 0) { x[q] = gen_vec<double>(r, s[q].R.n, mode); z[q] = gen_vec<double>(r, s[q].R.m, mode); }
    std::vector<ParCommPkg> pk(n);
    STEP("living");
    run(c, n, [&](int k)
    {
        std::vector<std::unique_ptr<ParMatrix>> P;
        for (int q = 0; q < slots; ++q) P.push_back(std::unique_ptr<ParMatrix>(new ParMatrix));
        for (auto& o : ops)
        {
            ParMatrix &A = *P[o.a], &B = *P[o.b];
            switch (o.kind)
            {
                case 0: A = build(base[o.b], k); break;
                case 1: P[o.a].reset(new ParMatrix(B)); break;
                case 2: A = B; break;
                case 3: A = std::move(B); break;
                case 4: swap(A, B); break;
                case 5: A *= o.v; break;
                case 6: P[o.a].reset(new ParMatrix); break;
                case 7: P[o.a].reset(new ParMatrix(std::move(B))); break;
            }
        }
        for (int q = 0; q < slots; ++q)
        {
            h[q][k] = hold(*P[q]);
            if (s[q].base >= 0)
            {
                apply(*P[q], x[q], z[q], base[s[q].base].ro, base[s[q].base].co, k, ap[q]);
                ParCommPkg a = P[q]->MakeCommPkg(), b(a), e(std::move(a));
                pk[k] = std::move(e);
            }
        }
        // the objects die in another order than they were made
        for (int q = 0; q < slots; ++q) P[(q * 3 + 1) % slots].reset();
    });
    STEP("comparing");
    for (int q = 0; q < slots; ++q)
    {
        if (s[q].base < 0)
        {
            for (int k = 0; k < n; ++k) CHECK(h[q][k].rows == 0 && h[q][k].cols == 0 && h[q][k].nnz == 0 && h[q][k].grows == 0, "par-life", "an empty or moved-from matrix reports %dx%d, %d entries", h[q][k].rows, h[q][k].cols, h[q][k].nnz);
            continue;
        }
        const Dist& d = base[s[q].base];
        SpModel G = gather(h[q], d.ro, d.co, "matrix after its history");
        same_values(G.dense(), s[q].R, nullptr, 16, "par-life", "matrix after its history");
        judge(ap[q], s[q].R, absolute(s[q].R), x[q], z[q], d.ro, d.co, "par-life", "product after its history");
    }
    int last = -1;
    for (int q = 0; q < slots; ++q) if (s[q].base >= 0) last = q;
    if (last >= 0) // the communication package of the last one: senders and receivers agree
    {
        const Dist& d = base[s[last].base];
        for (int k = 0; k < n; ++k)
        {
            const ParCommPkg& p = pk[k];
            CHECK((int)p.send_procs_.size() == p.num_sends_ && (int)p.send_map_starts_.size() == p.num_sends_ + 1 && (int)p.send_map_elmts_.size() == p.send_map_starts_.back() &&
                  (int)p.recv_procs_.size() == p.num_recvs_ && (int)p.recv_vec_starts_.size() == p.num_recvs_ + 1 && p.recv_vec_starts_.back() == (int)h[last][k].map.size(), "par-comm", "rank %d: communication package of inconsistent sizes", k);
            for (int q = 0; q < p.num_recvs_; ++q)
                for (int t = p.recv_vec_starts_[q]; t < p.recv_vec_starts_[q + 1]; ++t)
                {
                    int g = h[last][k].map[t], o = p.recv_procs_[q];
                    CHECK(g >= d.co[o] && g < d.co[o + 1], "par-comm", "rank %d receives column %d from rank %d, which owns [%d,%d)", k, g, o, d.co[o], d.co[o + 1]);
                    const ParCommPkg& s2 = pk[o];
                    int at = -1;
                    for (int u = 0; u < s2.num_sends_; ++u) if (s2.send_procs_[u] == k) at = u;
                    CHECK(at >= 0 && s2.send_map_elmts_[s2.send_map_starts_[at] + t - p.recv_vec_starts_[q]] + d.co[o] == g, "par-comm", "rank %d expects column %d from rank %d, which does not send it there", k, g, o);
                }
        }
        count("monitor: communication packages matched");
    }
}

// -------------------------------------------------------------------- vectors
FAMILY(vectors, "par.vectors", 25)
{
    Rng& r = c.r;
    int n = ranks(c), m = glob(c, n), mode = r.range(0, 2);
    Iv o = cuts(r, m, n);
    Dv x = gen_vec<double>(r, m, mode), y = gen_vec<double>(r, m, mode);
    for (double& v : y) if (v == 0) v = 1.5;
    double al = r.range(1, 6) / 2.0;
    c.describe("%d ranks, length %d", n, m);
    c.nontrivial = n > 1 && m > 2;
    c.mix(n); c.mix(m); c.mix(r.s);
    struct Res { double dot, dot2, dot3, norm, norm2, norm3, sum, lsum, dflt; int gsize; };
    std::vector<Res> s(n);
    std::vector<std::vector<Dv>> v(14, std::vector<Dv>(n));
    Iv sizes(n, 0);
    STEP("working");
    run(c, n, [&](int k)
    {
        std::vector<HYPRE_Int> p = starts(o, k);
        ParVector X(WORLD, lvec(x, o, k), p), Y(WORLD, lvec(y, o, k), p);
        const ParVector& cx = X;
        s[k].dot = X.Mult(Y); s[k].dot2 = linalgcpp::Mult(X, Y); s[k].dot3 = ParMult(WORLD, lvec(x, o, k), lvec(y, o, k)); s[k].dflt = ParMult(lvec(x, o, k), lvec(y, o, k));
        s[k].norm = cx.L2Norm(); s[k].norm2 = linalgcpp::L2Norm(cx); s[k].norm3 = ParL2Norm(WORLD, lvec(x, o, k));
        s[k].sum = X.GlobalSum(); s[k].lsum = X.LocalSum(); s[k].gsize = X.GlobalSize();
        ParVector a(X); a += Y; v[0][k] = take(a);
        ParVector b = X; b -= Y; v[1][k] = take(b);
        ParVector d(X); d *= Y; v[2][k] = take(d);
        ParVector e(X); e /= Y; v[3][k] = take(e);
        ParVector f(WORLD, p); v[4][k] = take(f);
        ParVector g(WORLD, al, p); v[5][k] = take(g);
        g = X; v[6][k] = take(g);
        g = al; v[7][k] = take(g);
        ParVector q(X); SubAvg(q); v[8][k] = take(q);
        ParVector u(std::move(q)); swap(u, a); v[9][k] = take(u); v[10][k] = take(a);
        a = std::move(u); v[11][k] = take(a);
        b = ParVector(); sizes[k] = b.size();
        ParVector none, same(none), moved(std::move(same)); none = moved; swap(none, moved); sizes[k] += none.size() + b.GlobalSize() + none.GlobalSize();
        b = X; b *= al; v[12][k] = take(b);
        b.Set(al, Y); v[13][k] = take(b);
        s[k].gsize += a.GlobalSize() - b.GlobalSize();
    });
    STEP("comparing");
    long double dot = 0, dm = 0, sum = 0, sm = 0, nn = 0;
    for (int i = 0; i < m; ++i) { dot += (long double)x[i] * y[i]; dm += std::fabs(x[i] * y[i]); sum += x[i]; sm += std::fabs(x[i]); nn += (long double)x[i] * x[i]; }
    double norm = std::sqrt((double)nn);
    for (int k = 0; k < n; ++k)
    {
        CHECK(near(s[k].dot, (double)dot, (double)dm) && near(s[k].dot2, (double)dot, (double)dm) && near(s[k].dot3, (double)dot, (double)dm) && near(s[k].dflt, (double)dot, (double)dm), "par-reduce", "rank %d of %d: inner products %.17g %.17g %.17g %.17g, expected %.17g", k, n, s[k].dot, s[k].dot2, s[k].dot3, s[k].dflt, (double)dot);
        CHECK(near(s[k].norm, norm, norm) && near(s[k].norm2, norm, norm) && near(s[k].norm3, norm, norm), "par-reduce", "rank %d of %d: norms %.17g %.17g %.17g, expected %.17g", k, n, s[k].norm, s[k].norm2, s[k].norm3, norm);
        long double ls = 0, lm = 0;
        for (int i = o[k]; i < o[k + 1]; ++i) { ls += x[i]; lm += std::fabs(x[i]); }
        CHECK(near(s[k].sum, (double)sum, (double)sm) && near(s[k].lsum, (double)ls, (double)lm), "par-reduce", "rank %d of %d: sums %.17g (global) %.17g (local), expected %.17g %.17g", k, n, s[k].sum, s[k].lsum, (double)sum, (double)ls);
        CHECK(s[k].gsize == m, "par-size", "rank %d: global size %d, expected %d", k, s[k].gsize, m);
        CHECK(sizes[k] == 0, "par-size", "rank %d: default vectors have sizes adding to %d", k, sizes[k]);
    }
    auto each = [&](int q, const std::function<double(int)>& f, const char* what, double scale = 0)
    {
        Dv w(m), mg(m);
        for (int i = 0; i < m; ++i) { w[i] = f(i); mg[i] = std::fabs(w[i]) + std::fabs(x[i]) + std::fabs(y[i]) + scale; }
        compare(v[q], w, mg, o, "par-vector", what);
    };
    auto sub = [&](int i) { return x[i] - (double)sum / m; };
    double big = (double)sm;
    each(0, [&](int i) { return x[i] + y[i]; }, "+=");
    each(1, [&](int i) { return x[i] - y[i]; }, "-=");
    each(2, [&](int i) { return x[i] * y[i]; }, "*=");
    each(3, [&](int i) { return x[i] / y[i]; }, "/=");
    each(4, [&](int) { return 0.0; }, "partition constructor");
    each(5, [&](int) { return al; }, "constant constructor");
    each(6, [&](int i) { return x[i]; }, "assignment");
    each(7, [&](int) { return al; }, "constant assignment");
    each(8, sub, "SubAvg", big);
    each(9, [&](int i) { return x[i] + y[i]; }, "swap");
    each(10, sub, "swap", big);
    each(11, [&](int i) { return x[i] + y[i]; }, "move assignment");
    each(12, [&](int i) { return x[i] * al; }, "scaling");
    each(13, [&](int i) { return al * y[i]; }, "Set");
}

// ------------------------------------------------------------------ splitting
FAMILY(split, "par.split", 25)
{
    Rng& r = c.r;
    int n = ranks(c), m = glob(c, n), mode = r.range(0, 1);
    SpModel M = gen_sp(c, m, m, mode);
    if (r.chance(1, 3)) { SpModel S = M; for (auto& e : M.e) S.e[std::make_pair(e.first.second, e.first.first)] = e.second; for (auto& e : S.e) if (e.first.first > e.first.second) e.second = S.get(e.first.second, e.first.first); M = S; }
    Iv part(m);
    int kind = r.range(0, 2);
    for (int i = 0; i < m; ++i) part[i] = kind == 0 ? i * n / m : r.range(0, n - 1);
    for (int k = 0; k < n; ++k) { if (kind == 0) break; part[k] = k; }
    if (kind == 2) { for (int i = m - 1; i > 0; --i) std::swap(part[i], part[r.range(0, i)]); }
    c.describe("%d ranks, %d vertices, %zu entries, part %d", n, m, M.e.size(), kind);
    c.nontrivial = n > 1 && M.e.size() > 2;
    c.mix(n); c.mix(m); c.mix(M.e.size()); c.mix(kind); c.mix(r.s);
    SparseMatrix<double> G = build_csr<double>(r, M, true);
    // what the split means: vertices of rank 0 in their order, then those of rank 1, ...
    Iv perm(m), o(n + 1, 0);
    int at = 0;
    for (int k = 0; k < n; ++k) { for (int i = 0; i < m; ++i) if (part[i] == k) perm[i] = at++; o[k + 1] = at; }
    SpModel W(m, m);
    for (auto& e : M.e) W.e[std::make_pair(perm[e.first.first], perm[e.first.second])] = e.second;
    std::vector<Held> h(n);
    Dv x = gen_vec<double>(r, m, mode), z = gen_vec<double>(r, m, mode);
    Applied ap(n);
    // two local counts at once, and one alone
    Iv s1(n), s2(n);
    for (int k = 0; k < n; ++k) { s1[k] = r.range(0, 9); s2[k] = r.range(0, 9); }
    std::vector<std::vector<std::vector<HYPRE_Int>>> offs(n);
    std::vector<std::vector<HYPRE_Int>> one(n);
    STEP("splitting");
    run(c, n, [&](int k)
    {
        ParMatrix A = ParSplit(WORLD, G, part);
        h[k] = hold(A);
        apply(A, x, z, o, o, k, ap);
        offs[k] = GenerateOffsets(WORLD, std::vector<int>{s1[k], s2[k]});
        one[k] = GenerateOffsets(WORLD, s2[k]);
    });
    STEP("comparing");
    SpModel got = gather(h, o, o, "split matrix");
    nonzeros(h, "split matrix");
    same_sp(got, W, "par-split", "split matrix");
    judge(ap, W.dense(), absolute(W.dense()), x, z, o, o, "par-split", "product with the split matrix");
    int a = 0, b = 0, ta = 0, tb = 0;
    for (int k = 0; k < n; ++k) { ta += s1[k]; tb += s2[k]; }
    for (int k = 0; k < n; ++k)
    {
        CHECK(offs[k].size() == 2, "par-offsets", "%zu offsets for two counts", offs[k].size());
        std::vector<HYPRE_Int> wa{a, a + s1[k], ta}, wb{b, b + s2[k], tb};
        CHECK(offs[k][0] == wa && offs[k][1] == wb && one[k] == wb, "par-offsets", "rank %d of %d: offsets are not those of the counts", k, n);
        a += s1[k]; b += s2[k];
    }
    // SortColumnMap on its own: the same entries under sorted global columns
    STEP("sorting a column map");
    int cols = r.range(0, 8), rows = r.range(0, 5);
    std::set<int> pick;
    while ((int)pick.size() < cols) pick.insert(r.range(0, 40));
    Iv map(pick.begin(), pick.end());
    r.shuffle(map);
    CooMatrix<double> coo(rows, cols);
    Entries want;
    for (int q = 0; q < (rows && cols ? r.range(0, 12) : 0); ++q) { int i = r.range(0, rows - 1), j = r.range(0, cols - 1); double v = gen_val(r, 0); coo.Add(i, j, v); want[std::make_pair(i, map[j])] += v; }
    Iv sorted = map;
    SortColumnMap(sorted, coo);
    CHECK(sorted == Iv(pick.begin(), pick.end()), "par-sortmap", "the sorted column map is not the sorted column map");
    SpModel S = wellformed(coo.ToSparse(), rows, cols, "sorted off-diagonal");
    for (auto& e : S.e) { auto it = want.find(std::make_pair(e.first.first, sorted[e.first.second])); CHECK((it == want.end() ? 0.0 : it->second) == e.second, "par-sortmap", "entry (%d, global %d) is %g after sorting", e.first.first, sorted[e.first.second], e.second); }
    for (auto& e : want) { int j = (int)(std::lower_bound(sorted.begin(), sorted.end(), e.first.second) - sorted.begin()); CHECK(S.get(e.first.first, j) == e.second, "par-sortmap", "entry (%d, global %d) is lost", e.first.first, e.first.second); }
}

// -------------------------------------------------------------------- solvers
namespace
{
struct Cfg { int kind; int max_iter; double tol; int sym, reuse, levels; double load, thresh, filter; int pre; bool diag; int type, times; double weight, omega; bool verbose; int logging; };
const int TYPES[] = {1, 2, 3, 0, -1, -2, -3, -4, -5, -6, -7, -19, -29};
Cfg config(Rng& r, int kind)
{
    Cfg f;
    f.kind = kind; f.max_iter = r.range(1, 60); f.tol = std::pow(10.0, -r.range(2, 10));
    f.sym = r.range(0, 2); f.reuse = r.range(0, 1); f.levels = r.range(0, 2); f.load = r.range(0, 4) / 4.0; f.thresh = r.range(1, 9) / 10.0; f.filter = r.range(1, 9) / 10.0;
    f.pre = kind == 0 ? r.range(0, 4) : 0; f.diag = kind == 0 && r.chance(1, f.pre ? 4 : 2);
    f.type = TYPES[r.range(0, 12)]; f.times = r.range(1, 4); f.weight = r.range(1, 4) / 4.0; f.omega = r.range(1, 4) / 4.0;
    f.verbose = r.chance(1, 3); f.logging = f.verbose;
    return f;
}
std::unique_ptr<ParSolver> make(const ParMatrix& A, const Cfg& f, const ParSolver* M)
{
    switch (f.kind)
    {
        case 0:
        {
            std::unique_ptr<ParCG> p(M ? new ParCG(A, *M, f.max_iter, f.tol, f.verbose) : new ParCG(A, f.max_iter, f.tol, f.verbose));
            if (f.diag) p->EnableDiagScaling();
            return std::move(p);
        }
        case 1: return std::unique_ptr<ParSolver>(new BoomerAMG(A, f.max_iter, f.tol, f.verbose));
        case 2: return std::unique_ptr<ParSolver>(new ParaSails(A, f.verbose, f.reuse, f.sym, f.load, f.thresh, f.filter, f.levels));
        case 3: return std::unique_ptr<ParSolver>(new ParDiagScale(A, f.max_iter, f.tol, f.verbose));
        case 5: return std::unique_ptr<ParSolver>(new ParSolver(A, f.max_iter, f.tol, f.verbose, &no_create, &no_destroy, &no_setup, &HYPRE_ParCSRDiagScale)); // the caller's own
        default: return std::unique_ptr<ParSolver>(new ParSmoother(A, static_cast<SmoothType>(f.type), f.times, f.weight, f.omega));
    }
}
// through the concrete type's own special members
template <typename S>
std::unique_ptr<ParSolver> relive(const ParSolver& from, int how)
{
    const S& s = static_cast<const S&>(from);
    if (how == 0) return std::unique_ptr<ParSolver>(new S(s));
    if (how == 1) { S t(s); return std::unique_ptr<ParSolver>(new S(std::move(t))); }
    std::unique_ptr<S> p(new S);
    if (how == 2) *p = s;
    if (how == 3) { S t(s); *p = std::move(t); }
    if (how == 4) { S t(s); swap(*p, t); }
    if (how == 5) { *p = s; S t(*p); *p = t; }
    return std::unique_ptr<ParSolver>(std::move(p));
}
std::unique_ptr<ParSolver> relive(const Cfg& f, const ParSolver& s, int how)
{
    switch (f.kind)
    {
        case 0: return relive<ParCG>(s, how);
        case 1: return relive<BoomerAMG>(s, how);
        case 2: return relive<ParaSails>(s, how);
        case 3: return relive<ParDiagScale>(s, how);
        case 5: return relive<ParSolver>(s, how);
        default: return relive<ParSmoother>(s, how);
    }
}
// the stand-in's smoothing step, on the gathered matrix
Dv relax_model(const Ref& A, const Cfg& f, const Dv& b, const Iv& o)
{
    int n = A.m;
    Dv u(n, 0.0), d(n, 1.0);
    for (int i = 0; i < n; ++i)
    {
        int k = 0;
        while (o[k + 1] <= i) ++k;
        double l = 0;
        if (f.type == 1) for (int j = 0; j < n; ++j) l += std::fabs(A(i, j));
        if (f.type == 2) { l = std::fabs(A(i, i)); for (int j = 0; j < n; ++j) if (j < o[k] || j >= o[k + 1]) l += std::fabs(A(i, j)); }
        if (f.type == 3) for (int j = 0; j < n; ++j) l += A(i, j) * A(i, j);
        if (f.type < 1) l = A(i, i);
        else if (A(i, i) < 0) l = -l;
        d[i] = l;
    }
    for (int t = 0; t < f.times; ++t)
    {
        Dv q = matvec(A, u);
        for (int i = 0; i < n; ++i) u[i] += f.weight * (b[i] - q[i]) / d[i];
    }
    return u;
}
Dv amg_model(const Ref& A, const Cfg& f, const Dv& b)
{
    int n = A.m;
    Dv x(n, 0.0), r(n);
    for (int it = 0; it < f.max_iter; ++it)
    {
        Dv q = matvec(A, x);
        for (int i = 0; i < n; ++i) r[i] = b[i] - q[i];
        if (f.tol > 0 && norm(r) <= f.tol * norm(b)) break;
        for (int i = 0; i < n; ++i) { double l = 0; for (int j = 0; j < n; ++j) l += std::fabs(A(i, j)); if (l > 0) x[i] += r[i] / l; }
    }
    return x;
}
Dv solver_model(const Ref& R, const Cfg& f, const Dv& b, const Iv& o)
{
    Dv want;
    const int m = R.m;
    if (f.kind == 1) want = amg_model(R, f, b);
    if (f.kind == 2) { want.resize(m); for (int i = 0; i < m; ++i) want[i] = (1.0 - 0.01 * f.filter) / R(i, i) * b[i]; }
    if (f.kind == 3 || f.kind == 5) { want.resize(m); for (int i = 0; i < m; ++i) want[i] = b[i] / R(i, i); }
    if (f.kind == 4) want = relax_model(R, f, b, o);
    return want;
}
// the monitor of solver settings: what reached the library below is what the caller asked for.
// `made` carries the sum over all settings of the multigrid solver from one use to the next.
void settings(const standin::Call& q, const Cfg& f, double& made)
{
    if (q.what == "pcg.Solve")
    {
        CHECK(q.a[0] == f.tol && (int)q.a[1] == f.max_iter, "par-settings", "ParCG ran with tolerance %g and %d iterations, asked for %g and %d", q.a[0], (int)q.a[1], f.tol, f.max_iter);
        CHECK((q.a[3] != 0) == (f.pre != 0 || f.diag), "par-settings", "ParCG ran %s a preconditioner", q.a[3] != 0 ? "with" : "without");
        CHECK((q.a[5] != 0) == f.diag, "par-settings", "ParCG ran %s diagonal scaling", q.a[5] != 0 ? "with" : "without");
        CHECK((int)q.a[2] <= f.max_iter, "par-settings", "%d iterations", (int)q.a[2]);
        CHECK((q.a[6] != 0) == f.verbose, "par-settings", "ParCG ran with print level %d, constructed with verbose %d", (int)q.a[6], f.verbose);
    }
    if (q.what == "amg.Solve" && f.kind == 1)
    {
        CHECK((int)q.a[0] == f.max_iter && q.a[1] == f.tol, "par-settings", "AMG ran with %d cycles and tolerance %g, asked for %d and %g", (int)q.a[0], q.a[1], f.max_iter, f.tol);
        CHECK((q.a[2] != 0) == f.verbose, "par-settings", "AMG ran with print level %d, constructed with verbose %d", (int)q.a[2], f.verbose);
        CHECK(made != made || std::fabs(made - q.a[3]) <= 1e-9 * (1 + std::fabs(made)), "par-settings", "AMG ran with other settings here than in the object it was copied from, or than on another rank");
        made = q.a[3];
    }
    if (q.what == "sails.Setup" && f.kind == 2)
    {
        CHECK(q.a[1] == f.thresh && q.a[2] == f.filter && (int)q.a[3] == f.levels && (int)q.a[4] == f.sym && q.a[5] == f.load && (int)q.a[6] == f.reuse, "par-settings", "ParaSails was set up with threshold %g, filter %g, %d levels, symmetry %d, load balance %g, reuse %d; asked for %g, %g, %d, %d, %g, %d", q.a[1], q.a[2], (int)q.a[3], (int)q.a[4], q.a[5], (int)q.a[6], f.thresh, f.filter, f.levels, f.sym, f.load, f.reuse);
        CHECK((int)q.a[7] == f.logging, "par-settings", "ParaSails was set up with logging %d, asked for %d", (int)q.a[7], f.logging);
    }
    if (q.what == "relax" && f.kind == 4) CHECK((int)q.a[0] == f.type && (int)q.a[1] == f.times && q.a[2] == f.weight && q.a[3] == f.omega, "par-settings", "smoother ran as type %d, %d times, weight %g, omega %g; asked for %d, %d, %g, %g", (int)q.a[0], (int)q.a[1], q.a[2], q.a[3], f.type, f.times, f.weight, f.omega);
}
template <typename S>
void trade(std::vector<std::unique_ptr<ParSolver>>& v, int how, int a, int b)
{
    S &x = static_cast<S&>(*v[a]), &y = static_cast<S&>(*v[b]);
    if (how == 0) swap(x, y);
    if (how == 1) x = y;
    if (how == 2) { S t(std::move(x)); x = std::move(y); y = std::move(t); }
    if (how == 3) { S t(y); swap(t, x); }
}
} // namespace
FAMILY(solvers, "par.solvers", 25)
{
    Rng& r = c.r;
    int n = ranks(c), m = glob(c, n);
    Cfg f = config(r, r.range(0, 5)), g = config(r, 1 + (f.pre + 3) % 4);
    if (f.kind == 0) { g.kind = f.pre == 0 ? 3 : f.pre; if (g.kind == 4) { g.type = 1; g.times = 1; g.weight = 1.0; } if (g.kind == 1) { g.max_iter = 1; g.tol = 0.0; } }
    SpModel M = spd(r, m, true, true);
    if (f.kind >= 2 && r.chance(1, 4)) for (auto& e : M.e) e.second = -e.second; // negative definite
    if (f.kind == 0) { f.max_iter = r.chance(1, 4) ? r.range(1, 3) : 400; }
    Iv o = cuts(r, m, n);
    Dist d = deal(r, M, o, o);
    Dv b1 = gen_vec<double>(r, m, 1), b2 = gen_vec<double>(r, m, 1);
    if (r.chance(1, 12)) b2.assign(m, 0.0);
    int how = r.range(0, 5);
    bool first_gone = r.chance(1, 2);
    c.describe("%d ranks, %d unknowns, solver %d, preconditioner %d%s, copy form %d, max_iter %d tol %g", n, m, f.kind, f.pre, f.diag ? " (diagonal)" : "", how, f.max_iter, f.tol);
    c.nontrivial = n > 1 && m > 2;
    c.mix(n); c.mix(m); c.mix(f.kind); c.mix(f.pre); c.mix(how); c.mix(r.s);
    std::vector<std::vector<Dv>> y(6, std::vector<Dv>(n));
    STEP("solving");
    standin::Outcome out = run(c, n, [&](int k)
    {
        ParMatrix A = build(d, k);
        std::unique_ptr<ParSolver> pre;
        if (f.kind == 0 && f.pre) pre = make(A, g, nullptr);
        std::unique_ptr<ParSolver> S = make(A, f, pre.get());
        A *= 3.0; // the solver has its own matrix
        auto solve = [&](const ParSolver& s, const Dv& b, int slot, double old)
        {
            Vector<double> rhs(lvec(b, o, k)), sol(o[k + 1] - o[k], old);
            s.Mult(rhs, sol);
            y[slot][k] = take(sol);
        };
        solve(*S, b1, 0, 0.0);
        solve(*S, b2, 1, 5.0);
        solve(*S, b1, 2, std::nan(""));
        std::unique_ptr<ParSolver> T = relive(f, *S, how);
        if (first_gone) S.reset();
        solve(*T, b1, 3, -2.0);
        std::unique_ptr<ParSolver> U = relive(f, *T, (how + 1) % 6);
        solve(*U, b2, 4, 1.0);
        T.reset();
        Vector<double> ret = static_cast<const Operator&>(*U).Mult(lvec(b1, o, k));
        y[5][k] = take(ret);
        if (S) solve(*S, b1, 2, 9.0);
    });
    STEP("comparing");
    Ref R = M.dense();
    auto flat = [&](const std::vector<Dv>& v) { Dv w; for (auto& p : v) w.insert(w.end(), p.begin(), p.end()); return w; };
    const Dv* rhs[] = {&b1, &b2, &b1, &b1, &b2, &b1};
    std::vector<Dv> flats;
    for (int s = 0; s < 6; ++s)
    {
        Dv x = flat(y[s]);
        flats.push_back(x);
        const Dv& b = *rhs[s];
        CHECK((int)x.size() == m, "par-solver", "solution of %zu entries", x.size());
        for (double v : x) CHECK(v == v, "par-solver", "solve %d of solver %d: the answer depends on what the result held before (NaN)", s, f.kind);
        Dv exact = dense_solve(R, b), want;
        if (f.kind == 0 && f.max_iter == 400)
        {
            // the stopping rule is relative, in the preconditioner's norm
            double err = 0;
            for (int i = 0; i < m; ++i) err = std::max(err, std::fabs(x[i] - exact[i]));
            double bound = 1e-9 + 4e3 * f.tol * (1 + norm(exact));
            CHECK(err <= bound, "par-solver", "solve %d by ParCG (preconditioner %d%s, tolerance %g) is off by %g (bound %g)", s, f.pre, f.diag ? ", diagonal" : "", f.tol, err, bound);
        }
        if (f.kind == 1) want = amg_model(R, f, b);
        if (f.kind == 2) { want.resize(m); for (int i = 0; i < m; ++i) want[i] = (1.0 - 0.01 * f.filter) / R(i, i) * b[i]; }
        if (f.kind == 3 || f.kind == 5) { want.resize(m); for (int i = 0; i < m; ++i) want[i] = b[i] / R(i, i); }
        if (f.kind == 4) want = relax_model(R, f, b, o);
        if (!want.empty())
        {
            double sc = 0;
            for (double v : want) sc = std::max(sc, std::fabs(v));
            for (double v : exact) sc = std::max(sc, std::fabs(v));
            for (int i = 0; i < m; ++i) CHECK(std::fabs(want[i] - x[i]) <= 1e-9 * (1 + sc), "par-solver", "solve %d of solver %d (type %d): entry %d is %.12g, expected %.12g", s, f.kind, f.type, i, x[i], want[i]);
        }
        count("monitor: distributed solves judged");
    }
    // the same answer from a copy, a moved object and a second solve
    for (int s : {2, 3, 5})
        for (int i = 0; i < m; ++i) CHECK(std::fabs(flats[s][i] - flats[0][i]) <= 1e-12 * (1 + std::fabs(flats[0][i])), "par-copy", "solver %d: solve %d (copy form %d) gives %.15g at %d where the first gave %.15g", f.kind, s, how, flats[s][i], i, flats[0][i]);
    for (int i = 0; i < m; ++i) CHECK(std::fabs(flats[4][i] - flats[1][i]) <= 1e-12 * (1 + std::fabs(flats[1][i])), "par-copy", "solver %d: the copied solver gives %.15g at %d where the original gave %.15g", f.kind, flats[4][i], i, flats[1][i]);
    // every rank asked for the same settings, and those are the caller's
    double made = std::nan("");
    for (int k = 0; k < n; ++k) for (auto& q : out.calls[k]) settings(q, f, made);
}

// ------------------------------------------------------------------ row norms
FAMILY(rownorms, "par.rownorms", 0)
{
    Rng& r = c.r;
    int n = ranks(c), m = glob(c, n);
    SpModel M = spd(r, m, r.chance(1, 2), r.chance(1, 2));
    for (int i = 0; i < m; ++i) if (r.chance(1, 3)) M.e[std::make_pair(i, i)] *= -1;
    int gone = r.chance(1, 4) ? r.range(0, m - 1) : -1; // a row of zeros
    if (gone >= 0) for (auto& e : M.e) if (e.first.first == gone) e.second = 0;
    Iv o = cuts(r, m, n);
    Dist d = deal(r, M, o, o);
    c.describe("%d ranks, %d rows, %zu entries%s", n, m, M.e.size(), gone < 0 ? "" : ", one row of zeros");
    c.nontrivial = n > 1 && M.e.size() > 2;
    c.mix(n); c.mix(m); c.mix(M.e.size()); c.mix(gone); c.mix(r.s);
    std::vector<std::vector<Dv>> got(5, std::vector<Dv>(n));
    std::vector<Iv> flag(5, Iv(n, 0));
    int stale = r.range(0, 2);
    STEP("row norms");
    run(c, n, [&](int k)
    {
        ParMatrix A = build(d, k);
        for (int q = 1; q <= 4; ++q)
        {
            hypre_error_flag = 0;
            Dv v(stale == 0 ? 0 : stale == 1 ? o[k + 1] - o[k] : 1, std::nan(""));
            flag[q][k] = hypre_ParCSRComputeL1Norms(A, q, v);
            got[q][k] = v;
        }
        hypre_error_flag = 0;
    });
    STEP("comparing");
    Ref R = M.dense();
    for (int q = 1; q <= 4; ++q)
    {
        Dv want(m, 0.0), mag(m, 0.0);
        for (int k = 0; k < n; ++k)
        {
            for (int i = o[k]; i < o[k + 1]; ++i)
            {
                double all = 0, away = 0, sq = 0, dg = std::fabs(R(i, i));
                for (int j = 0; j < m; ++j) { double a = std::fabs(R(i, j)); all += a; sq += a * a; if (j < o[k] || j >= o[k + 1]) away += a; }
                double v = q == 1 ? all : q == 2 ? dg + away : q == 3 ? sq : dg + 0.5 * away;
                if (q == 4 && v <= 4.0 / 3.0 * dg) v = dg;
                want[i] = R(i, i) < 0 ? -v : v; mag[i] = v + 1e-300;
            }
            CHECK((flag[q][k] != 0) == (gone >= o[k] && gone < o[k + 1]), "par-rownorms", "rank %d, option %d: error flag %d %s a row of zeros", k, q, flag[q][k], gone >= o[k] && gone < o[k + 1] ? "with" : "without");
        }
        compare(got[q], want, mag, o, "par-rownorms", q == 1 ? "l1 norms of the rows" : q == 2 ? "diagonal plus off-process l1 norms" : q == 3 ? "squared norms of the rows" : "truncated l1 norms");
    }
}

// ------------------------------------------------------- solvers trading places
FAMILY(traded, "par.traded", 25)
{
    Rng& r = c.r;
    int n = ranks(c), kind = r.range(0, 5), slots = 3;
    std::vector<Cfg> f;
    std::vector<SpModel> M;
    std::vector<Iv> o;
    std::vector<char> self; // a system of its own on every rank
    std::vector<Dist> d;
    std::vector<std::vector<Piece>> own(slots);
    for (int q = 0; q < slots; ++q)
    {
        Cfg g = config(r, kind);
        if (kind == 0) { g.pre = 0; g.diag = r.chance(1, 2); g.max_iter = 400 + q; }
        f.push_back(g);
        self.push_back(r.chance(1, 4) ? 1 : 0);
        int m = glob(c, n);
        M.push_back(spd(r, m, true, true));
        o.push_back(self[q] ? Iv{0, m} : cuts(r, m, n));
        if (self[q]) { d.push_back(Dist()); own[q].push_back(piece(r, M[q], o[q], o[q], 0, false)); }
        else d.push_back(deal(r, M[q], o[q], o[q]));
    }
    struct Op { int kind, a, b; double v; int w; };
    std::vector<Op> ops;
    std::vector<int> at{0, 1, 2};       // which construction a slot holds
    int nops = r.range(1, 8);
    std::vector<Cfg> have(f);           // by slot
    std::vector<char> fresh(slots, 1);
    for (int q = 0; q < nops; ++q)
    {
        Op p{r.range(0, 4), r.range(0, slots - 1), r.range(0, slots - 1), r.range(1, 9) / 10.0, r.range(0, 2)};
        if (p.a == p.b && p.kind != 4) continue;
        if (p.kind == 0) { std::swap(at[p.a], at[p.b]); std::swap(have[p.a], have[p.b]); std::swap(fresh[p.a], fresh[p.b]); }
        if (p.kind == 1) { at[p.a] = at[p.b]; have[p.a] = have[p.b]; fresh[p.a] = true; }                                     // copy assign: set up anew
        if (p.kind == 2) { std::swap(at[p.a], at[p.b]); std::swap(have[p.a], have[p.b]); std::swap(fresh[p.a], fresh[p.b]); }  // three moves
        if (p.kind == 3) { at[p.a] = at[p.b]; have[p.a] = have[p.b]; fresh[p.a] = true; }                                     // copy construct, swapped in
        if (p.kind == 4)
        {
            if (kind == 0) { have[p.a].diag = true; }
            else if (kind == 2)
            {
                Cfg& g = have[p.a];
                g.filter = p.v; g.sym = p.w; g.load = p.v; g.reuse = p.w & 1; g.logging = p.w;
                fresh[p.a] = false;     // HYPRE uses them from the next set-up on
            }
            else continue;
        }
        ops.push_back(p);
    }
    c.describe("%d ranks, three solvers of kind %d%s, %zu steps", n, kind, self[0] || self[1] || self[2] ? ", some on MPI_COMM_SELF" : "", ops.size());
    c.nontrivial = !ops.empty();
    c.mix(n); c.mix(kind); for (auto& p : ops) c.mix(p.kind * 16 + p.a * 4 + p.b); c.mix(r.s);
    std::vector<Dv> b;
    for (int q = 0; q < slots; ++q) b.push_back(gen_vec<double>(r, M[at[q]].m, 1));
    std::vector<std::vector<std::vector<Dv>>> y(slots, std::vector<std::vector<Dv>>(2, std::vector<Dv>(n)));
    std::vector<std::vector<Iv>> shape(slots, std::vector<Iv>(n));
    STEP("trading places");
    standin::Outcome out = run(c, n, [&](int k)
    {
        std::vector<std::unique_ptr<ParSolver>> S;
        for (int q = 0; q < slots; ++q)
        {
            ParMatrix A = self[q] ? ParMatrix(MPI_COMM_SELF, own[q][0].diag) : build(d[q], k);
            S.push_back(make(A, f[q], nullptr));
        }
        for (auto& p : ops)
        {
            if (p.kind == 4)
            {
                if (kind == 0) { static_cast<ParCG&>(*S[p.a]).EnableDiagScaling(); continue; }
                ParaSails& s = static_cast<ParaSails&>(*S[p.a]);
                s.SetFilter(p.v); s.SetSym(p.w); s.SetLoadBal(p.v); s.SetReuse(p.w & 1); s.SetLogging(p.w);
                continue;
            }
            switch (kind)
            {
                case 0: trade<ParCG>(S, p.kind, p.a, p.b); break;
                case 1: trade<BoomerAMG>(S, p.kind, p.a, p.b); break;
                case 2: trade<ParaSails>(S, p.kind, p.a, p.b); break;
                case 3: trade<ParDiagScale>(S, p.kind, p.a, p.b); break;
                case 5: trade<ParSolver>(S, p.kind, p.a, p.b); break;
                default: trade<ParSmoother>(S, p.kind, p.a, p.b); break;
            }
        }
        for (int q = 0; q < slots; ++q)
        {
            const ParSolver& s = *S[q];
            Dv rhs = self[at[q]] ? b[q] : local(b[q], o[at[q]], k);
            shape[q][k] = Iv{s.Rows(), s.Cols(), s.GlobalRows(), s.GlobalCols(), s.GetComm() == (self[at[q]] ? MPI_COMM_SELF : WORLD), s.GetMatrix().GlobalRows()};
            standin::mark(q);
            Vector<double> sol(rhs.size(), std::nan(""));
            s.Mult(Vector<double>(rhs), sol);
            y[q][0][k] = take(sol);
            standin::mark(10 + q);
            std::unique_ptr<ParSolver> T = relive(f[q], s, 0);
            Vector<double> again(rhs.size(), 7.0);
            T->Mult(Vector<double>(rhs), again);
            y[q][1][k] = take(again);
        }
        standin::mark(99);
    });
    STEP("comparing");
    for (int q = 0; q < slots; ++q)
    {
        const int w = at[q], m = M[w].m;
        const Ref R = M[w].dense();
        const Cfg& g = have[q];
        Dv exact = dense_solve(R, b[q]);
        for (int k = 0; k < n; ++k)
        {
            int l = self[w] ? m : o[w][k + 1] - o[w][k];
            CHECK(shape[q][k] == (Iv{l, l, m, m, 1, m}), "par-traded", "slot %d, rank %d: the solver is %dx%d of %dx%d%s for a system of %d rows here and %d in all", q, k, shape[q][k][0], shape[q][k][1], shape[q][k][2], shape[q][k][3], shape[q][k][4] ? "" : " on another communicator", l, m);
        }
        for (int copy = 0; copy < 2; ++copy)
        {
            if (!copy && !fresh[q]) continue;
            for (int k = 0; k < (self[w] ? n : 1); ++k)
            {
                Dv x;
                if (self[w]) x = y[q][copy][k];
                else for (auto& p : y[q][copy]) x.insert(x.end(), p.begin(), p.end());
                CHECK((int)x.size() == m, "par-traded", "slot %d: solution of %zu entries for %d unknowns", q, x.size(), m);
                Dv want = kind == 0 ? exact : solver_model(R, g, b[q], o[w]);
                double sc = norm(exact);
                double bound = kind == 0 ? 1e-9 + 4e3 * g.tol * (1 + sc) : 1e-9 * (1 + sc + norm(want));
                for (int i = 0; i < m; ++i) CHECK(std::fabs(want[i] - x[i]) <= bound, "par-traded", "slot %d after %zu steps%s, solver %d%s: entry %d is %.12g, expected %.12g", q, ops.size(), copy ? " and a copy" : "", kind, self[w] ? " on MPI_COMM_SELF" : "", i, x[i], want[i]);
            }
            count("monitor: traded solvers judged");
        }
    }
    std::map<int, double> made;
    for (int w = 0; w < slots; ++w) made[w] = std::nan("");
    for (int k = 0; k < n; ++k)
    {
        int in = -1;
        for (auto& t : out.calls[k])
        {
            if (t.what == "mark") { in = (int)t.a[0]; continue; }
            if (in < 0 || in == 99) continue;
            int q = in % 10;
            Cfg g = have[q];
            settings(t, g, made[at[q]]);
        }
    }
}

// ----------------------------------------- vectors and matrices trading places
FAMILY(mixed, "par.mixed", 25)
{
    Rng& r = c.r;
    int n = ranks(c), mode = r.range(0, 1), slots = 4;
    // layout 0 and 1 on all ranks, layout 2 on every rank by itself (and of another size on each)
    Iv m{glob(c, n), glob(c, n), 0};
    std::vector<Iv> o{cuts(r, m[0], n), cuts(r, m[1], n), Iv()};
    std::vector<SpModel> M{gen_sp(c, m[0], m[0], mode), gen_sp(c, m[1], m[1], mode)};
    std::vector<Dist> d{deal(r, M[0], o[0], o[0]), deal(r, M[1], o[1], o[1])};
    std::vector<SpModel> mine;
    for (int k = 0; k < n; ++k) mine.push_back(spd(r, 1 + (k * 3 + r.range(0, 4)) % 5, true, true));
    std::vector<SparseMatrix<double>> mine_s;
    for (auto& S : mine) mine_s.push_back(build_csr<double>(r, S, true));
    std::vector<std::vector<Dv>> src(6); // values of six vectors: two per layout, per rank for the last
    for (int q = 0; q < 6; ++q)
        for (int k = 0; k < n; ++k)
            src[q].push_back(q < 4 ? (k ? src[q][0] : gen_vec<double>(r, m[q / 2], mode)) : gen_vec<double>(r, mine[k].m, mode));
    struct Op { int kind, a, b; double v; };
    std::vector<Op> ops;
    struct Now { int src; double f; };
    std::vector<Now> s(slots, Now{-1, 1.0});
    int nops = r.range(3, 14);
    for (int q = 0; q < nops; ++q)
    {
        Op p{r.range(0, 6), r.range(0, slots - 1), r.range(0, slots - 1), r.range(1, 6) / 2.0};
        if (p.kind == 0) { p.b = r.range(0, 5); s[p.a] = Now{p.b, 1.0}; }
        else if (p.kind == 5) { if (s[p.a].src < 0) continue; s[p.a].f *= p.v; }
        else if (p.kind == 6) s[p.a] = Now{-1, 1.0};
        else if (p.a == p.b && p.kind != 2) continue;
        else if (p.kind == 4) std::swap(s[p.a], s[p.b]);
        else { s[p.a] = s[p.b]; if (p.kind == 3) s[p.b] = Now{-1, 1.0}; }
        ops.push_back(p);
    }
    c.describe("%d ranks, vectors of global sizes %d, %d and of each rank's own, %zu steps", n, m[0], m[1], ops.size());
    c.nontrivial = ops.size() > 3;
    c.mix(n); c.mix(m[0]); c.mix(m[1]); for (auto& p : ops) c.mix(p.kind * 16 + p.a * 4 + p.b); c.mix(r.s);
    struct Res { int gsize = -1, size = -1; double dot = 0, norm = 0, sum = 0; Dv val, prod, prodt, into, into2; };
    std::vector<std::vector<Res>> res(slots, std::vector<Res>(n));
    STEP("living");
    run(c, n, [&](int k)
    {
        std::vector<ParMatrix> A;
        A.push_back(build(d[0], k)); A.push_back(build(d[1], k)); A.push_back(ParMatrix(MPI_COMM_SELF, mine_s[k]));
        auto part = [&](int l) { return l < 2 ? starts(o[l], k) : std::vector<HYPRE_Int>{0, mine[k].m, mine[k].m}; };
        auto fresh = [&](int q) { int l = q / 2; return ParVector(l < 2 ? WORLD : MPI_COMM_SELF, l < 2 ? lvec(src[q][k], o[l], k) : Vector<double>(src[q][k]), part(l)); };
        std::vector<std::unique_ptr<ParVector>> V;
        for (int q = 0; q < slots; ++q) V.push_back(std::unique_ptr<ParVector>(new ParVector));
        for (auto& p : ops)
        {
            ParVector &a = *V[p.a], &b = *V[p.b % slots];
            switch (p.kind)
            {
                case 0: a = fresh(p.b); break;
                case 1: V[p.a].reset(new ParVector(b)); break;
                case 2: a = b; break;
                case 3: if (p.v < 1.5) a = std::move(b); else V[p.a].reset(new ParVector(std::move(b))); break;
                case 4: swap(a, b); break;
                case 5: a *= p.v; break;
                case 6: V[p.a].reset(new ParVector); break;
            }
        }
        for (int q = 0; q < slots; ++q)
        {
            Res& t = res[q][k];
            ParVector& v = *V[q];
            t.gsize = v.GlobalSize(); t.size = v.size();
            if (s[q].src < 0) continue;
            const int l = s[q].src / 2;
            t.val = take(v); t.dot = v.Mult(v); t.norm = v.L2Norm(); t.sum = v.GlobalSum();
            ParVector y(l < 2 ? WORLD : MPI_COMM_SELF, std::nan(""), part(l));
            A[l].Mult(v, y);
            t.prod = take(y);
            A[l].MultAT(v, y);
            t.prodt = take(y);
            ParVector w(v), x = fresh(l * 2);
            w = std::nan("");
            A[l].Mult(x, w); // into a copy
            swap(w, v);
            t.into = take(v);
            ParVector again(v);
            A[l].Mult(x, again);
            t.into2 = take(again);
        }
    });
    STEP("comparing");
    for (int q = 0; q < slots; ++q)
        for (int k = 0; k < n; ++k)
        {
            const Res& t = res[q][k];
            if (s[q].src < 0) { CHECK(t.gsize == 0 && t.size == 0, "par-mixed", "slot %d, rank %d: an empty or moved-from vector has size %d of %d", q, k, t.size, t.gsize); continue; }
            const int l = s[q].src / 2;
            Ref R = l < 2 ? M[l].dense() : mine[k].dense();
            Dv x = src[s[q].src][k], x0 = src[l * 2][k];
            for (double& v : x) v *= s[q].f;
            int b0 = l < 2 ? o[l][k] : 0, e0 = l < 2 ? o[l][k + 1] : mine[k].m;
            CHECK(t.gsize == R.m && t.size == e0 - b0, "par-mixed", "slot %d, rank %d: size %d of %d, expected %d of %d", q, k, t.size, t.gsize, e0 - b0, R.m);
            double nn = 0, sum = 0, mg = 0;
            for (double v : x) { nn += v * v; sum += v; mg += std::fabs(v); }
            CHECK(near(t.dot, nn, nn, 8) && near(t.norm, std::sqrt(nn), std::sqrt(nn), 8) && near(t.sum, sum, mg, 8), "par-mixed", "slot %d, rank %d: inner product %.17g, norm %.17g, sum %.17g; expected %.17g, %.17g, %.17g", q, k, t.dot, t.norm, t.sum, nn, std::sqrt(nn), sum);
            Dv ax(x), ax0(x0);
            for (double& v : ax) v = std::fabs(v);
            for (double& v : ax0) v = std::fabs(v);
            Ref B = absolute(R);
            auto part = [&](const Dv& got, const Dv& want, const Dv& mag, const char* what)
            {
                CHECK((int)got.size() == e0 - b0, "par-mixed", "slot %d, rank %d: %s of %zu entries", q, k, what, got.size());
                for (int i = b0; i < e0; ++i) CHECK(near(got[i - b0], want[i], mag[i], 8), "par-mixed", "slot %d, rank %d: entry %d of the %s is %.17g, expected %.17g", q, k, i, what, got[i - b0], want[i]);
            };
            part(t.val, x, ax, "vector");
            part(t.prod, matvec(R, x), matvec(B, ax), "product");
            part(t.prodt, matvec(transpose(R), x), matvec(transpose(B), ax), "transposed product");
            part(t.into, matvec(R, x0), matvec(B, ax0), "product into a copy");
            part(t.into2, matvec(R, x0), matvec(B, ax0), "product into a copy of that copy");
            count("monitor: traded vectors judged");
        }
}

// --------------------------------------------------------------- eigenvectors
namespace
{
// an operator a user writes: the matrix, applied through the square constructor of the base class
struct Shell : public ParOperator
{
    ParMatrix A;
    explicit Shell(const ParMatrix& a) : ParOperator(a.GetComm(), a.GetRowStarts()), A(a) {}
    using Operator::Mult;
    void Mult(const VectorView<double>& x, VectorView<double> y) const override { A.Mult(x, y); }
};
}
FAMILY(eigen, "par.eigen", 0)
{
    Rng& r = c.r;
    int n = ranks(c), m = std::max(n, r.range(1, 14));
    SpModel M = spd(r, m, true, r.chance(1, 2));
    for (int i = 0; i < m; ++i) M.e[std::make_pair(i, i)] += r.uniform(0.0, 1.0);
    Iv o = cuts(r, m, n);
    Dist d = deal(r, M, o, o);
    int k = r.range(1, std::min(3, m)), pre = r.range(0, 3);
    bool give = r.chance(2, 3), shell = r.chance(1, 3), verbose = r.chance(1, 3);
    Dv pw(n, 0.0);
    c.describe("%d ranks, %d unknowns, %d eigenpairs, preconditioner %d", n, m, k, pre);
    c.nontrivial = n > 1 && m > 2;
    c.mix(n); c.mix(m); c.mix(k); c.mix(pre); c.mix(r.s);
    std::vector<Dv> guess;
    for (int q = 0; q < k; ++q) guess.push_back(gen_vec<double>(r, m, 2));
    std::vector<std::vector<double>> ev(n);
    std::vector<std::vector<Dv>> vec(k, std::vector<Dv>(n));
    STEP("eigensolver");
    standin::Outcome out = run(c, n, [&](int q)
    {
        ParMatrix A = build(d, q);
        Shell made(A), user(made);
        const ParOperator& op = shell ? static_cast<const ParOperator&>(user) : A;
        std::unique_ptr<ParSolver> P;
        if (pre == 1) P.reset(new ParDiagScale(A));
        if (pre == 2) P.reset(new ParSmoother(A, SmoothType::L1_Jacobi, 2));
        if (pre == 3) P.reset(new BoomerAMG(A, 2));
        if (give)
        {
            std::vector<Vector<double>> x;
            for (int s = 0; s < k; ++s) x.push_back(lvec(guess[s], o, q));
            ev[q] = LOBPCG(op, x, P.get(), verbose);
            for (int s = 0; s < k; ++s) vec[s][q] = take(x[s]);
        }
        else ev[q] = LOBPCG(op, k, P.get(), verbose);
        if (P)
        {
            Vector<double> e(o[q + 1] - o[q]), z(o[q + 1] - o[q], 3.0);
            for (int j = 0; j < e.size(); ++j) e[j] = std::sin(1.0 + o[q] + j);
            P->Mult(e, z);
            for (int j = 0; j < e.size(); ++j) pw[q] += z[j] * (o[q] + j + 1);
        }
    });
    STEP("comparing");
    Ref R = M.dense();
    for (int q = 0; q < n; ++q)
    {
        CHECK((int)ev[q].size() == k && ev[q] == ev[0], "par-eigen", "rank %d has other eigenvalues than rank 0", q);
        for (int s = 1; s < k; ++s) CHECK(ev[q][s - 1] <= ev[q][s] + 1e-12, "par-eigen", "eigenvalues are not in order");
    }
    if (give)
        for (int s = 0; s < k; ++s)
        {
            Dv x;
            for (auto& p : vec[s]) x.insert(x.end(), p.begin(), p.end());
            CHECK((int)x.size() == m, "par-eigen", "eigenvector of %zu entries", x.size());
            Dv y = matvec(R, x);
            double e = 0;
            for (int i = 0; i < m; ++i) e = std::max(e, std::fabs(y[i] - ev[0][s] * x[i]));
            CHECK(norm(x) > 1e-3 && e <= 1e-8 * (1 + R.maxabs()) * m, "par-eigen", "pair %d: the residual is %g for a vector of norm %g", s, e, norm(x));
        }
    for (int q = 0; q < n; ++q)
    {
        int guesses = 0;
        for (auto& t : out.calls[q])
        {
            if (t.what == "eigen.Guess")
            {
                ++guesses;
                CHECK(give || t.a[2] > 0, "par-eigen", "the initial guess %d on rank %d is zero", (int)t.a[0], q);
                if (give) { double w = 0; int s = (int)t.a[0]; for (int i = o[q]; i < o[q + 1]; ++i) w += guess[s][i] * (i + 1); CHECK(std::fabs(w - t.a[1]) <= 1e-9 * (1 + std::fabs(w)), "par-eigen", "initial guess %d did not reach the eigensolver", s); }
            }
            if (t.what == "eigen.Solve") CHECK(t.a[2] <= 1e-12 * (1 + R.maxabs()), "par-eigen", "the operator handed to the eigensolver is not the symmetric matrix (asymmetry %g)", t.a[2]);
            if (t.what == "eigen.Solve") CHECK((t.a[4] != 0) == (pre != 0), "par-eigen", "the eigensolver ran %s a preconditioner", t.a[4] != 0 ? "with" : "without");
            if (t.what == "eigen.Solve" && (q == 0 || !verbose)) CHECK((t.a[3] != 0) == verbose, "par-eigen", "rank %d: the eigensolver ran with print level %d, asked to be %s", q, (int)t.a[3], verbose ? "verbose" : "quiet");
            if (t.what == "eigen.Precond") CHECK(std::fabs(t.a[1] - pw[q]) <= 1e-9 * (1 + std::fabs(pw[q])), "par-eigen", "the preconditioner the eigensolver was given is not the caller's: %g where that gives %g", t.a[1], pw[q]);
            if (t.what == "eigen.Precond") CHECK(t.a[0] == 0, "par-eigen", "the preconditioner's answer depends on what its output held before (difference %g)", t.a[0]);
        }
        CHECK(guesses == k, "par-eigen", "%d guesses reached the eigensolver, expected %d", guesses, k);
    }
}

// ------------------------------------------------------------------ bad calls (C23)
// Each bad call is made by one rank, or by all of them, in a forked child of a build with assertions; the ranks that
// call correctly may end either way. The child's end is judged as for the serial library, and what the stand-in
// reports (HYPRE handed something it would read past the end of) counts as damage.
namespace
{
struct Bad { const char* name; std::function<void(int, bool)> fn; }; // rank, whether this rank makes the bad call
int far(Rng& r, int n) { return r.chance(1, 2) ? n : r.chance(1, 2) ? -1 : r.chance(1, 2) ? n + r.range(1, 30) : -r.range(2, 30); }
int unlike(Rng& r, int n) { int k = r.range(0, 3); return k == 0 && n > 0 ? n - 1 : k == 1 ? n + 1 : k == 2 || n == 0 ? n + r.range(2, 30) : r.range(0, n - 1); }
volatile double sunk;
void touch(const VectorView<double>& v) { double s = 0; for (int i = 0; i < v.size(); ++i) s += v[i]; sunk = s; }
void touch(const ParMatrix& A) { double s = A.Rows() + A.GlobalCols(); for (double x : A.GetDiag().GetData()) s += x; for (double x : A.GetOffd().GetData()) s += x; for (int x : A.GetColMap()) s += x; sunk = s; }
}
FAMILY(contract_par, "contract.par", 25, false)
{
    Rng& r = c.r;
    WORLD = MPI_COMM_WORLD;
    const int n = r.range(1, 4), m = std::max(n, r.range(1, 12)) + (n > 1 ? 1 : 0), w = r.chance(1, 2) ? m : std::max(n, r.range(1, 12));
    Iv ro = cuts(r, m, n), co = cuts(r, w, n);
    SpModel M = gen_sp(c, m, w, 0), S = spd(r, m, true, true);
    for (int i = 0; i < m; ++i) M.e[std::make_pair(i, i % w)] = 1.0;
    Dist d = deal(r, M, ro, co), s = deal(r, S, ro, ro);
    // another matrix whose shape does not fit: other global size, or the same global size shared out differently
    Iv ro2 = ro, co2 = co; int m2 = m, w2 = w;
    auto other = [&](const Iv& o, int size, Iv& o2, int& size2)
    {
        if (n > 1 && size > n && r.chance(1, 2))
            for (int t = 0; t < 20; ++t) { o2 = cuts(r, size, n); if (o2 != o) return; }
        size2 = size + r.range(1, 5); o2 = o; o2.back() = size2;
    };
    other(ro, m, ro2, m2); other(co, w, co2, w2);
    SpModel T(m2, w2), Q(m2, m2), B(m, w2);
    for (int i = 0; i < m2; ++i) { T.e[std::make_pair(i, i % w2)] = 2.0; Q.e[std::make_pair(i, i)] = 3.0; }
    for (int i = 0; i < m; ++i) B.e[std::make_pair(i, i % w2)] = 2.0;
    Dist t = deal(r, T, ro2, co2), q2 = deal(r, Q, ro2, ro2), wide = deal(r, B, ro, co2);
    const bool all = r.chance(1, 2); const int who = r.range(0, n - 1);
    // per rank, drawn here: nothing random happens in the ranks
    struct Draw { int offr, offc, badr, badc, more; uint64_t a, b; };
    std::vector<Draw> dr(n);
    for (int k = 0; k < n; ++k)
    {
        int h = ro[k + 1] - ro[k], v = co[k + 1] - co[k];
        Draw x = {unlike(r, h), unlike(r, v), far(r, h), far(r, v), r.range(1, 6), r.next(), r.next()};
        dr[k] = x;
    }
    std::vector<std::vector<std::vector<HYPRE_Int>>> wrongstarts(n);
    for (int k = 0; k < n; ++k)
    {
        typedef std::vector<HYPRE_Int> H;
        H g = starts(ro, k);
        H x0(g.begin(), g.begin() + (dr[k].a % 3)); // too few numbers
        H x1 = g; x1[1] = g[2] + dr[k].more;        // ends after the end
        H x2 = g; x2[0] = -dr[k].more;              // starts before the start
        H x3 = g; std::swap(x3[0], x3[1]);          // ends before it starts
        wrongstarts[k] = {x0, x1, x2, x3};
    }
    auto V = [](int size) { return Vector<double>(size, 1.5); };
    auto A = [&](int k) { return build(d, k); };
    auto SQ = [&](int k) { return build(s, k); };
    auto H = [&](int k) { return ro[k + 1] - ro[k]; };
    auto W = [&](int k) { return co[k + 1] - co[k]; };
    auto RS = [&](int k) { return starts(ro, k); };
    auto CS = [&](int k) { return starts(co, k); };
    auto RS2 = [&](int k) { return starts(ro2, k); };
    auto CS2 = [&](int k) { return starts(co2, k); };
    auto maker = [&](int kind, ParMatrix P) -> std::unique_ptr<ParSolver>
    {
        typedef std::unique_ptr<ParSolver> U;
        return kind == 0 ? U(new ParCG(P, 3)) : kind == 1 ? U(new BoomerAMG(P, 2)) : kind == 2 ? U(new ParaSails(P)) : kind == 3 ? U(new ParDiagScale(P)) : U(new ParSmoother(P, SmoothType::L1_Jacobi, 2));
    };
    const int kind = r.range(0, 4);
    std::vector<Bad> L;
    auto add = [&](const char* name, std::function<void(int, bool)> f) { Bad b = {name, f}; L.push_back(b); };
    // one rank (or all) holds a vector of another size
    add("par Mult input", [&](int k, bool bad) { ParMatrix P = A(k); Vector<double> y = V(H(k)); P.Mult(V(bad ? dr[k].offc : W(k)), y); touch(y); });
    add("par Mult output", [&](int k, bool bad) { ParMatrix P = A(k); Vector<double> o = V(bad ? dr[k].offr : H(k)); VectorView<double> y(o); P.Mult(V(W(k)), y); touch(y); });
    add("par Mult returning", [&](int k, bool bad) { ParMatrix P = A(k); touch(P.Mult(V(bad ? dr[k].offc : W(k)))); });
    add("par MultAT input", [&](int k, bool bad) { ParMatrix P = A(k); Vector<double> y = V(W(k)); P.MultAT(V(bad ? dr[k].offr : H(k)), y); touch(y); });
    add("par MultAT output", [&](int k, bool bad) { ParMatrix P = A(k); Vector<double> o = V(bad ? dr[k].offc : W(k)); VectorView<double> y(o); P.MultAT(V(H(k)), y); touch(y); });
    add("par MultAT returning", [&](int k, bool bad) { ParMatrix P = A(k); touch(P.MultAT(V(bad ? dr[k].offr : H(k)))); });
    // a distributed vector shared out differently
    add("par Mult distributed input", [&](int k, bool) { ParMatrix P = A(k); ParVector x(WORLD, 1.0, CS2(k)), y(WORLD, 1.0, RS(k)); P.Mult(x, y); touch(y); });
    add("par Mult distributed output", [&](int k, bool) { ParMatrix P = A(k); ParVector x(WORLD, 1.0, CS(k)), y(WORLD, 1.0, RS2(k)); P.Mult(x, y); touch(y); });
    add("par Mult distributed returning", [&](int k, bool) { ParMatrix P = A(k); ParVector x(WORLD, 1.0, CS2(k)); touch(P.Mult(x)); });
    add("par MultAT distributed input", [&](int k, bool) { ParMatrix P = A(k); ParVector x(WORLD, 1.0, RS2(k)), y(WORLD, 1.0, CS(k)); P.MultAT(x, y); touch(y); });
    add("par MultAT distributed output", [&](int k, bool) { ParMatrix P = A(k); ParVector x(WORLD, 1.0, RS(k)), y(WORLD, 1.0, CS2(k)); P.MultAT(x, y); touch(y); });
    add("par MultAT distributed returning", [&](int k, bool) { ParMatrix P = A(k); ParVector x(WORLD, 1.0, RS2(k)); touch(P.MultAT(x)); });
    add("par Mult distributed global size", [&](int k, bool) { ParMatrix P = A(k); std::vector<HYPRE_Int> q = CS(k); q[2] += 3; ParVector x(WORLD, 1.0, q), y(WORLD, 1.0, RS(k)); P.Mult(x, y); touch(y); });
    add("par MultAT distributed global size", [&](int k, bool) { ParMatrix P = A(k); std::vector<HYPRE_Int> q = CS(k); q[2] += 3; ParVector x(WORLD, 1.0, RS(k)), y(WORLD, 1.0, q); P.MultAT(x, y); touch(y); });
    // construction of matrices
    auto full = [](int h, int v) { std::vector<int> p(h + 1), j; std::vector<double> e; for (int i = 0; i < h; ++i) { p[i] = (int)j.size(); for (int q = 0; q < v; ++q) { j.push_back(q); e.push_back(1.0); } } p[h] = (int)j.size(); return SparseMatrix<double>(p, j, e, h, v); };
    add("par matrix diagonal block rows", [&](int k, bool bad) { touch(ParMatrix(WORLD, RS(k), CS(k), full(bad ? dr[k].offr : H(k), W(k)), SparseMatrix<double>(H(k), 0), {})); });
    add("par matrix diagonal block columns", [&](int k, bool bad) { touch(ParMatrix(WORLD, RS(k), CS(k), full(H(k), bad ? dr[k].offc : W(k)), SparseMatrix<double>(H(k), 0), {})); });
    add("par matrix diagonal block alone", [&](int k, bool bad) { touch(ParMatrix(WORLD, RS(k), CS(k), full(bad ? dr[k].offr : H(k), W(k)))); });
    add("par matrix other block rows", [&](int k, bool bad) { touch(ParMatrix(WORLD, RS(k), CS(k), d.p[k].diag, SparseMatrix<double>(bad ? dr[k].offr + H(k) + 1 : H(k), (int)d.p[k].map.size()), d.p[k].map)); });
    add("par matrix other block columns", [&](int k, bool bad) { int v = (int)d.p[k].map.size(); touch(ParMatrix(WORLD, RS(k), CS(k), d.p[k].diag, bad ? full(H(k), v + dr[k].more) : d.p[k].offd, d.p[k].map)); });
    add("par matrix column map too long", [&](int k, bool bad) { auto q = d.p[k].map; if (bad) q.push_back(w + 1); touch(ParMatrix(WORLD, RS(k), CS(k), d.p[k].diag, d.p[k].offd, q)); });
    auto mapped = [&](const char* name, std::function<void(std::vector<HYPRE_Int>&, int)> f)
    {
        add(name, [&, f](int k, bool bad) { auto q = d.p[k].map; if (bad) f(q, k); touch(ParMatrix(WORLD, RS(k), CS(k), d.p[k].diag, bad ? full(H(k), (int)q.size()) : d.p[k].offd, q)); });
    };
    mapped("par matrix column map past the end", [&](std::vector<HYPRE_Int>& q, int k) { q.push_back(w + (int)(dr[k].a % 20)); });
    mapped("par matrix column map negative", [&](std::vector<HYPRE_Int>& q, int k) { q.insert(q.begin(), -dr[k].more); });
    mapped("par matrix column map names own columns", [&](std::vector<HYPRE_Int>& q, int k) { q.push_back(co[k] + (int)(dr[k].a % W(k))); std::sort(q.begin(), q.end()); });
    mapped("par matrix column map repeats", [&](std::vector<HYPRE_Int>& q, int) { if (q.empty()) q.assign(2, w); else q.push_back(q.back()); });
    mapped("par matrix column map decreases", [&](std::vector<HYPRE_Int>& q, int) { if (q.size() < 2) q.assign(2, -1); else std::swap(q.front(), q.back()); });
    for (int e = 0; e < 4; ++e)
    {
        static const char* rn[] = {"par matrix row ownership too short", "par matrix row ownership past the end", "par matrix row ownership before the start", "par matrix row ownership reversed"};
        static const char* cn[] = {"par matrix column ownership too short", "par matrix column ownership past the end", "par matrix column ownership before the start", "par matrix column ownership reversed"};
        static const char* vn[] = {"par vector ownership too short", "par vector ownership past the end", "par vector ownership before the start", "par vector ownership reversed"};
        static const char* un[] = {"par vector of values ownership too short", "par vector of values ownership past the end", "par vector of values ownership before the start", "par vector of values ownership reversed"};
        add(rn[e], [&, e](int k, bool bad) { touch(ParMatrix(WORLD, bad ? wrongstarts[k][e] : RS(k), CS(k), d.p[k].diag, d.p[k].offd, d.p[k].map)); });
        add(cn[e], [&, e](int k, bool bad) { touch(ParMatrix(WORLD, CS(k), bad ? wrongstarts[k][e] : RS(k), full(W(k), H(k)))); });
        add(vn[e], [&, e](int k, bool bad) { ParVector v(WORLD, 1.0, bad ? wrongstarts[k][e] : RS(k)); touch(v); });
        add(un[e], [&, e](int k, bool bad) { ParVector v(WORLD, V(H(k)), bad ? wrongstarts[k][e] : RS(k)); touch(v); });
    }
    add("par vector local size", [&](int k, bool bad) { ParVector v(WORLD, V(bad ? dr[k].offr : H(k)), RS(k)); touch(v); });
    // arithmetic of matrices
    add("par sum of other shape", [&](int k, bool) { touch(ParAdd(A(k), build(t, k))); });
    add("par difference of other shape", [&](int k, bool) { touch(ParSub(1.0, A(k), 2.0, build(t, k))); });
    add("par sum of other width", [&](int k, bool) { touch(ParAdd(2.0, A(k), 2.0, build(wide, k))); });
    add("par sum with a short marker", [&](int k, bool bad) { std::vector<int> mk(bad ? (int)(dr[k].a % w) : w, -1); touch(ParAdd(1.0, A(k), 1.0, A(k), mk)); });
    add("par difference with a short marker", [&](int k, bool bad) { std::vector<int> mk(bad ? w - 1 : w, -1); touch(ParSub(1.0, A(k), 1.0, A(k), mk)); });
    if (co != ro) add("par product of other shape", [&](int k, bool) { touch(A(k).Mult(build(wide, k))); });
    add("par product of other inner size", [&](int k, bool) { touch(SQ(k).Mult(build(t, k))); });
    add("par triple product left", [&](int k, bool) { touch(RAP(build(t, k), SQ(k), A(k))); });
    add("par triple product right", [&](int k, bool) { touch(RAP(SQ(k), build(t, k))); });
    add("par ScaleRows size", [&](int k, bool bad) { ParMatrix P = A(k); P.ScaleRows(std::vector<double>(bad ? dr[k].offr : H(k), 2.0)); touch(P); });
    add("par ScaleRows matrix size", [&](int k, bool bad) { ParMatrix P = A(k); P.ScaleRows(SparseMatrix<double>(std::vector<double>(bad ? dr[k].offr : H(k), 2.0))); touch(P); });
    add("par InverseScaleRows size", [&](int k, bool bad) { ParMatrix P = A(k); P.InverseScaleRows(std::vector<double>(bad ? dr[k].offr : H(k), 2.0)); touch(P); });
    add("par InverseScaleRows matrix size", [&](int k, bool bad) { ParMatrix P = A(k); P.InverseScaleRows(SparseMatrix<double>(std::vector<double>(bad ? dr[k].offr : H(k), 2.0))); touch(P); });
    add("par InverseScaleRows zero", [&](int k, bool bad) { ParMatrix P = SQ(k); std::vector<double> z(H(k), 2.0); if (bad) z[dr[k].a % H(k)] = 0; P.InverseScaleRows(z); touch(P); });
    add("par AddDiag size", [&](int k, bool bad) { ParMatrix P = SQ(k); P.AddDiag(std::vector<double>(bad ? dr[k].offr : H(k), 2.0)); touch(P); });
    add("par EliminateRow index", [&](int k, bool bad) { ParMatrix P = A(k); P.EliminateRow(bad ? dr[k].badr : 0); touch(P); });
    add("par MakeCommPkg of an empty matrix", [&](int, bool) { ParMatrix P; ParCommPkg q = P.MakeCommPkg(); });
    // arithmetic of vectors
    add("par vector +=", [&](int k, bool bad) { ParVector x(WORLD, 1.0, RS(k)); x += V(bad ? dr[k].offr : H(k)); touch(x); });
    add("par vector += par vector", [&](int k, bool) { ParVector x(WORLD, 1.0, RS(k)), y(WORLD, 1.0, RS2(k)); if (H(k) == y.size()) abort(); x += y; touch(x); });
    add("par vector -= par vector", [&](int k, bool) { ParVector x(WORLD, 1.0, RS(k)), y(WORLD, 1.0, RS2(k)); if (H(k) == y.size()) abort(); x -= y; touch(x); });
    add("par vector *= par vector", [&](int k, bool) { ParVector x(WORLD, 1.0, RS(k)), y(WORLD, 1.0, RS2(k)); if (H(k) == y.size()) abort(); x *= y; touch(x); });
    add("par vector /= par vector", [&](int k, bool) { ParVector x(WORLD, 1.0, RS(k)), y(WORLD, 1.0, RS2(k)); if (H(k) == y.size()) abort(); x /= y; touch(x); });
    add("par vector Mult", [&](int k, bool bad) { ParVector x(WORLD, 1.0, RS(k)); sunk = x.Mult(V(bad ? dr[k].offr : H(k))); });
    add("ParMult sizes", [&](int k, bool bad) { sunk = ParMult(WORLD, V(H(k)), V(bad ? dr[k].offr : H(k))); });
    add("par vector entry", [&](int k, bool bad) { ParVector x(WORLD, 1.0, RS(k)); x[bad ? dr[k].badr : 0] = 1; });
    add("par vector /= 0", [&](int k, bool bad) { ParVector x(WORLD, 1.0, RS(k)); x /= bad ? 0.0 : 1.0; });
    // solvers
    static const char* kn[] = {"ParCG", "BoomerAMG", "ParaSails", "ParDiagScale", "ParSmoother"};
    static std::vector<std::string> names;
    if (names.empty()) for (const char* b : kn) for (const char* e : {" right-hand side", " solution", " returning", " of a rectangle"}) names.push_back(std::string(b) + e);
    add(names[4 * kind].c_str(), [&](int k, bool bad) { auto p = maker(kind, SQ(k)); Vector<double> y = V(H(k)); p->Mult(V(bad ? dr[k].offr : H(k)), y); touch(y); });
    add(names[4 * kind + 1].c_str(), [&](int k, bool bad) { auto p = maker(kind, SQ(k)); Vector<double> o = V(bad ? dr[k].offr : H(k)); VectorView<double> y(o); p->Mult(V(H(k)), y); touch(y); });
    add(names[4 * kind + 2].c_str(), [&](int k, bool bad) { auto p = maker(kind, SQ(k)); const Operator& o = *p; touch(o.Mult(V(bad ? dr[k].offr : H(k)))); });
    if (m != w) add(names[4 * kind + 3].c_str(), [&](int k, bool) { if (H(k) == W(k) && m == w) abort(); auto p = maker(kind, A(k)); sunk = p->Rows(); });
    add("ParCG preconditioner of another size", [&](int k, bool) { ParMatrix P = build(q2, k); ParDiagScale D(P); ParCG p(SQ(k), D, 3); Vector<double> y = V(H(k)); p.Mult(V(H(k)), y); touch(y); });
    add("LOBPCG guess size", [&](int k, bool bad) { ParMatrix P = SQ(k); std::vector<Vector<double>> x(2, V(H(k))); if (bad) x[dr[k].a % 2] = V(dr[k].offr); auto e = LOBPCG(P, x); sunk = e[0]; });
    add("LOBPCG preconditioner of another size", [&](int k, bool) { ParMatrix P = SQ(k); ParDiagScale D(build(q2, k)); std::vector<Vector<double>> x(2, V(H(k))); auto e = LOBPCG(P, x, &D); sunk = e[0]; });
    if (m != w) add("LOBPCG of a rectangle", [&](int k, bool) { ParMatrix P = A(k); std::vector<Vector<double>> x(1, V(H(k))); auto e = LOBPCG(P, x); sunk = e[0]; });
    // splitting
    SparseMatrix<double> G = build_csr<double>(r, S, true), R = build_csr<double>(r, M, true);
    Iv own(m); for (int i = 0; i < m; ++i) own[i] = i < n ? i : r.range(0, n - 1);
    add("ParSplit short parts", [&](int k, bool bad) { Iv q = own; if (bad) q.pop_back(); touch(ParSplit(WORLD, G, q)); });
    add("ParSplit long parts", [&](int k, bool bad) { Iv q = own; if (bad) q.insert(q.end(), dr[k].more, k); touch(ParSplit(WORLD, G, q)); });
    add("ParSplit part past the end", [&](int k, bool) { Iv q = own; q[dr[0].a % m] = n + dr[0].more - 1; touch(ParSplit(WORLD, G, q)); });
    add("ParSplit negative part", [&](int k, bool) { Iv q = own; q[dr[0].a % m] = -dr[0].more; touch(ParSplit(WORLD, G, q)); });
    if (m != w) add("ParSplit of a rectangle", [&](int k, bool) { touch(ParSplit(WORLD, R, own)); });
    add("SortColumnMap of a short map", [&](int k, bool) { CooMatrix<double> o(2, 4); o.Add(0, 3, 1.0); std::vector<HYPRE_Int> q = {7, 5, 2}; SortColumnMap(q, o); sunk = q[0]; });
    c.describe("%d ranks, %dx%d, other shape %dx%d, %s", n, m, w, m2, w2, all ? "every rank calls badly" : "one rank calls badly");
    c.mix(n); c.mix(m); c.mix(w); c.mix(m2); c.mix(w2); c.mix(all ? 9 : who); c.mix(r.s); c.nontrivial = true;
    for (int q = 0; q < 3; ++q)
    {
        const Bad& b = L[(size_t)((c.idx * 3 + q) % (long)L.size())];
        STEP(b.name);
        const uint64_t seed = r.next();
        std::string detail, key(b.name);
        for (char& ch : key) if (ch == ' ') ch = '_';
        Death how = death([&]()
        {
            standin::Outcome o = standin::world(n, seed, [&](int k) { b.fn(k, all || k == who); });
            if (!o.misuse.empty()) { fprintf(stderr, "runtime error: %s\n", o.misuse[0].c_str()); return; }
            for (auto& what : o.thrown) if (!what.empty()) throw std::runtime_error(what);
            if (o.deadlock) { fprintf(stderr, "runtime error: the ranks wait for each other for ever\n"); return; }
        }, &detail);
        if (how == D_STOPPED) count("outcome: stopped by an assertion, distributed");
        else if (how == D_THROWN) count("outcome: exception, distributed");
        else if (how == D_SILENT) fail(("contract-silent:" + key).c_str(), "%s: the bad call returned", b.name);
        else if (how == D_SANITIZER) fail(("contract-damage:" + key).c_str(), "%s: memory was touched before the call was stopped: %s", b.name, detail.c_str());
        else fail(("contract-crash:" + key).c_str(), "%s: the call crashed: %s", b.name, detail.c_str());
    }
}
