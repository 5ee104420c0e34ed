// Triplet assembly (C05): coordinate and list-of-lists matrices as histories against a map of sums.
#include "sp.hpp"
using namespace linalgcpp;
using namespace vh;

namespace
{
const char* KEY = "assembly";

struct Sum
{
    std::map<std::pair<int, int>, std::pair<long double, double>> e; // value, magnitude
    int maxr = -1, maxc = -1;
    long n = 0;
    void add(int i, int j, double v)
    {
        auto& p = e[std::make_pair(i, j)];
        p.first += v; p.second += std::fabs(v);
        maxr = std::max(maxr, i); maxc = std::max(maxc, j); ++n;
    }
};

template <typename M, typename T>
void verify(Ctx& c, const M& A, const Sum& S, int m, int n, const char* what, int light)
{
    Rng& r = c.r;
    Ref R(m, n), G(m, n);
    for (auto& p : S.e) { R(p.first.first, p.first.second) = (double)p.second.first; G(p.first.first, p.first.second) = p.second.second; }
    const double k = 8 + S.n;
    STEP("Rows/Cols");
    CHECK(A.Rows() == m && A.Cols() == n, KEY, "%s: reported shape %dx%d, expected %dx%d", what, A.Rows(), A.Cols(), m, n);
    int order = r.range(0, 5); // conversions in different orders: none may disturb another
    for (int q = 0; q < 3; ++q)
    {
        int w = (order + q * (order % 2 ? 1 : 2)) % 3;
        if (w == 0)
        {
            STEP("ToSparse");
            SparseMatrix<T> B = A.template ToSparse<T>();
            SpModel W = wellformed(B, m, n, what);
            same_values(W.dense(), R, &G, k, KEY, what);
            for (auto& p : W.e) CHECK(S.e.count(p.first), KEY, "%s: position (%d,%d) was never added", what, p.first.first, p.first.second);
            if (!light && std::is_same<T, int>::value)
            {
                STEP("ToSparse<double>");
                SparseMatrix<double> D = A.template ToSparse<double>();
                same_values(wellformed(D, m, n, what).dense(), R, &G, k, KEY, "ToSparse<double>");
            }
        }
        if (w == 1)
        {
            STEP("ToDense");
            same_values(ref_of(A.ToDense()), R, &G, k, KEY, what);
            DenseMatrix D = stale(r, m, n);
            STEP("ToDense(out)");
            A.ToDense(D);
            same_values(ref_of(D), R, &G, k, KEY, "ToDense(out)");
        }
        if (w == 2 && !light)
        {
            for (int tr = 0; tr < 2; ++tr)
            {
                std::vector<double> xv = gen_vec<double>(r, tr ? m : n, 1), mag;
                Ref Q = tr ? transpose(R) : R, QG = tr ? transpose(G) : G;
                std::vector<double> want = matvec(Q, xv, &mag);
                std::vector<double> ax(xv); for (double& v : ax) v = std::fabs(v);
                mag = matvec(QG, ax);
                const Operator& op = A;
                Vector<double> y = stale_vec<double>(r, tr ? n : m, true);
                STEP(tr ? "MultAT" : "Mult");
                if (tr) op.MultAT(Vector<double>(xv), y); else op.Mult(Vector<double>(xv), y);
                CHECK(y.size() == (int)want.size(), KEY, "%s: product size", what);
                for (int i = 0; i < y.size(); ++i) CHECK(near(y[i], want[i], mag[i], k + m + n), KEY, "%s: %s entry %d is %.17g, expected %.17g", what, tr ? "A^T x" : "A x", i, y[i], want[i]);
                std::vector<double> buf((tr ? n : m) + 2, 3.25);
                VectorView<double> w2(buf.data() + 1, tr ? n : m);
                if (tr) A.MultAT(Vector<double>(xv), w2); else A.Mult(Vector<double>(xv), w2);
                for (int i = 0; i < w2.size(); ++i) CHECK(near(w2[i], want[i], mag[i], k + m + n), KEY, "%s: view product entry %d", what, i);
                CHECK(buf.front() == 3.25 && buf.back() == 3.25, KEY, "%s: product wrote outside its output", what);
            }
        }
    }
}

template <typename T> struct Extra
{
    static bool run(Ctx& c, LilMatrix<T>&, Sum&, int, int, int) { (void)c; return false; }
    static bool run(Ctx& c, CooMatrix<T>& A, Sum& S, int R, int C, int mode)
    {
        Rng& r = c.r;
        auto idx = [&](int hi, int k) { std::vector<int> v(k); for (int& i : v) i = r.range(0, hi - 1); return v; };
        const T s = (T)gen_val(r, mode == 2 ? 2 : 0);
        int k = r.range(0, 6);
        switch (r.range(0, 8))
        {
            case 0:
            {
                std::vector<int> I = idx(std::min(R, C), k);
                Ref V = gen_ref(r, k, k, mode);
                STEP("Add(idx,scale,dense)"); A.Add(I, s, dense_of(V));
                for (int a = 0; a < k; ++a) for (int b = 0; b < k; ++b) S.add(I[a], I[b], (double)s * V(a, b));
                return true;
            }
            case 1:
            {
                int k2 = r.range(0, 5);
                std::vector<int> I = idx(R, k), J = idx(C, k2);
                Ref V = gen_ref(r, k, k2, mode);
                STEP("Add(rows,cols,scale,dense)"); A.Add(I, J, s, dense_of(V));
                for (int a = 0; a < k; ++a) for (int b = 0; b < k2; ++b) S.add(I[a], J[b], (double)s * V(a, b));
                return true;
            }
            case 2:
            {
                std::vector<int> I = idx(R, k); int j = r.range(0, C - 1);
                std::vector<T> v = gen_vec<T>(r, k, mode);
                STEP("Add(rows,col,vector)"); A.Add(I, j, Vector<T>(v));
                for (int a = 0; a < k; ++a) S.add(I[a], j, v[a]);
                return true;
            }
            case 3:
            {
                std::vector<int> J = idx(C, k); int i = r.range(0, R - 1);
                std::vector<T> v = gen_vec<T>(r, k, mode);
                STEP("Add(row,cols,vector)"); A.Add(i, J, Vector<T>(v));
                for (int a = 0; a < k; ++a) S.add(i, J[a], v[a]);
                return true;
            }
            case 4:
            {
                std::vector<int> I = idx(R, k); int j = r.range(0, C - 1);
                std::vector<T> v = gen_vec<T>(r, k, mode);
                STEP("Add(rows,col,scale,vector)"); A.Add(I, j, s, Vector<T>(v));
                for (int a = 0; a < k; ++a) S.add(I[a], j, (double)s * v[a]);
                return true;
            }
            case 5:
            {
                std::vector<int> J = idx(C, k); int i = r.range(0, R - 1);
                std::vector<T> v = gen_vec<T>(r, k, mode);
                STEP("Add(row,cols,scale,vector)"); A.Add(i, J, s, Vector<T>(v));
                for (int a = 0; a < k; ++a) S.add(i, J[a], (double)s * v[a]);
                return true;
            }
            case 6:
            {
                std::vector<int> I = idx(R, k), J = idx(C, k);
                std::vector<T> v = gen_vec<T>(r, k, mode);
                STEP("Add(rows,cols,values)"); A.Add(I, J, v);
                for (int a = 0; a < k; ++a) S.add(I[a], J[a], v[a]);
                return true;
            }
            case 7:
            {
                std::vector<int> I = idx(R, k), J = idx(C, k);
                std::vector<T> v = gen_vec<T>(r, k, mode);
                STEP("Add(rows,cols,scale,values)"); A.Add(I, J, s, v);
                for (int a = 0; a < k; ++a) S.add(I[a], J[a], (double)s * v[a]);
                return true;
            }
            default:
                STEP("Reserve"); A.Reserve(r.range(0, 50));
                return true;
        }
    }
    static bool permute(Ctx&, LilMatrix<T>&, Sum&, int, int) { return false; }
    static bool permute(Ctx& c, CooMatrix<T>& A, Sum& S, int m, int n)
    {
        Rng& r = c.r;
        std::vector<int> P(m), Q(n);
        for (int i = 0; i < m; ++i) P[i] = i;
        for (int i = 0; i < n; ++i) Q[i] = i;
        r.shuffle(P); r.shuffle(Q);
        int w = r.range(0, 2);
        if (w == 0) { STEP("PermuteRows"); A.PermuteRows(P); }
        if (w == 1) { STEP("PermuteCols"); A.PermuteCols(Q); }
        if (w == 2) { STEP("PermuteRowsCols"); A.PermuteRowsCols(P, Q); }
        Sum N; N.n = S.n;
        for (auto& p : S.e)
        {
            int i = w == 1 ? p.first.first : P[p.first.first], j = w == 0 ? p.first.second : Q[p.first.second];
            N.e[std::make_pair(i, j)] = p.second;
            N.maxr = std::max(N.maxr, i); N.maxc = std::max(N.maxc, j);
        }
        S = N;
        return true;
    }
};

template <typename M, typename T>
void history(Ctx& c)
{
    Rng& r = c.r;
    const bool isint = std::is_same<T, int>::value;
    const int mode = isint ? 0 : r.range(0, 2);
    bool sized = r.chance(2, 3);
    int R = std::max(1, c.size(1)), C = r.chance(1, 3) ? R : std::max(1, c.size(1));
    M A;
    if (sized) { if (R == C && r.chance(1, 2)) A = M(R); else A = M(R, C); }
    Sum S;
    c.mix(R); c.mix(C); c.mix(sized); c.mix(mode);
    c.describe("%s %dx%d sized=%d int=%d mode=%d ops:", std::is_same<M, CooMatrix<T>>::value ? "coo" : "lil", R, C, (int)sized, (int)isint, mode);
    const int nops = r.range(0, 14);
    const int hot = r.range(1, 6); // small index range now and then: many duplicates
    for (int o = 0; o < nops; ++o)
    {
        int op = r.range(0, 13);
        c.mix(op); if (o < 12) c.describe(" %d", op);
        int hr = r.chance(1, 2) ? std::min(R, hot) : R, hc = r.chance(1, 2) ? std::min(C, hot) : C;
        if (op <= 3)
        {
            int k = r.range(1, 6);
            for (int q = 0; q < k; ++q)
            {
                int i = r.range(0, hr - 1), j = r.range(0, hc - 1);
                T v = (T)(r.chance(1, 10) ? 0.0 : gen_val(r, mode));
                if (r.chance(1, 8) && !S.e.empty() && !isint)
                {   // an exact cancellation of what is there
                    auto it = S.e.begin(); i = it->first.first; j = it->first.second; v = (T)-(double)it->second.first;
                }
                STEP("Add(i,j,v)"); A.Add(i, j, v); S.add(i, j, (double)v);
                c.mix(i * 1000 + j); c.mixd((double)v);
            }
        }
        else if (op == 4)
        {
            int h = std::min(hr, hc);
            int i = r.range(0, h - 1), j = r.chance(1, 4) ? i : r.range(0, h - 1);
            T v = (T)gen_val(r, mode);
            STEP("AddSym"); A.AddSym(i, j, v); S.add(i, j, (double)v); if (i != j) S.add(j, i, (double)v);
        }
        else if (op == 5)
        {
            int k = r.range(0, 4);
            std::vector<int> I(k); for (int& i : I) i = r.range(0, std::min(hr, hc) - 1);
            Ref V = gen_ref(r, k, k, mode);
            STEP("Add(idx,dense)"); A.Add(I, dense_of(V));
            for (int a = 0; a < k; ++a) for (int b = 0; b < k; ++b) S.add(I[a], I[b], V(a, b));
        }
        else if (op == 6)
        {
            int k = r.range(0, 4), k2 = r.range(0, 4);
            std::vector<int> I(k), J(k2); for (int& i : I) i = r.range(0, hr - 1); for (int& j : J) j = r.range(0, hc - 1);
            Ref V = gen_ref(r, k, k2, mode);
            STEP("Add(rows,cols,dense)"); A.Add(I, J, dense_of(V));
            for (int a = 0; a < k; ++a) for (int b = 0; b < k2; ++b) S.add(I[a], J[b], V(a, b));
        }
        else if (op <= 9)
        {
            Extra<T>::run(c, A, S, hr, hc, mode);
        }
        else if (op == 10)
        {
            // declare (or enlarge) the size
            if (sized) { if (!r.chance(1, 3)) continue; R += r.range(0, 4); C += r.range(0, 4); }
            else if (r.chance(1, 2)) continue;
            STEP("SetSize"); A.SetSize(R, C); sized = true;
        }
        else if (op == 11)
        {
            int m = sized ? R : S.maxr + 1, n = sized ? C : S.maxc + 1;
            verify<M, T>(c, A, S, m, n, "mid-history", 0);
        }
        else if (op == 12)
        {
            STEP("copy/move"); M B(A); M D(std::move(B)); M E; E = D; B = E; A = std::move(B);
            if (r.chance(1, 2)) { E.Add(0, 0, (T)3); swap(D, E); }
        }
        else if (op == 13 && (sized || S.maxr >= 0))
        {
            int m = sized ? R : S.maxr + 1, n = sized ? C : S.maxc + 1;
            if (!Extra<T>::permute(c, A, S, m, n) && sized)
            {
                // contributions that are exactly zero can be dropped without changing the matrix
                STEP("EliminateZeros()"); A.EliminateZeros();
            }
        }
    }
    c.nontrivial = S.n > 1;
    int m = sized ? R : S.maxr + 1, n = sized ? C : S.maxc + 1;
    verify<M, T>(c, A, S, m, n, "final", 0);
    STEP("Print");
    std::ostringstream os; A.Print("lab", os);
}
FAMILY(coo_d, "coo.history.double") { history<CooMatrix<double>, double>(c); }
FAMILY(coo_i, "coo.history.int") { history<CooMatrix<int>, int>(c); }
FAMILY(lil_d, "lil.history.double") { history<LilMatrix<double>, double>(c); }
FAMILY(lil_i, "lil.history.int") { history<LilMatrix<int>, int>(c); }

// the same contributions in any order, through either class, give the same matrix
FAMILY(order, "assembly.order")
{
    Rng& r = c.r;
    int R = std::max(1, c.size(1)), C = std::max(1, c.size(1)), k = r.range(0, 60);
    int mode = r.range(0, 1); // exactly summable values
    struct E { int i, j; double v; };
    std::vector<E> es(k);
    int h = r.range(1, std::max(R, C));
    for (auto& e : es) { e.i = r.range(0, std::min(h, R) - 1); e.j = r.range(0, std::min(h, C) - 1); e.v = gen_val(r, mode); c.mix(e.i * 777 + e.j); c.mixd(e.v); }
    c.nontrivial = k > 2;
    c.describe("%dx%d contributions=%d", R, C, k);
    Sum S; for (auto& e : es) S.add(e.i, e.j, e.v);
    Ref W(R, C); for (auto& p : S.e) W(p.first.first, p.first.second) = (double)p.second.first;
    for (int rep = 0; rep < 3; ++rep)
    {
        CooMatrix<double> A(R, C); LilMatrix<double> B(R, C);
        STEP("permuted insertion");
        for (auto& e : es) { A.Add(e.i, e.j, e.v); B.Add(e.i, e.j, e.v); }
        same_values(wellformed(A.ToSparse(), R, C, "coo").dense(), W, nullptr, 0, KEY, "coo sparse");
        same_values(wellformed(B.ToSparse(), R, C, "lil").dense(), W, nullptr, 0, KEY, "lil sparse");
        same_values(ref_of(A.ToDense()), W, nullptr, 0, KEY, "coo dense");
        same_values(ref_of(B.ToDense()), W, nullptr, 0, KEY, "lil dense");
        r.shuffle(es);
    }
}

// dropping small contributions: exact zeros always go, contributions above the tolerance always stay
template <typename M>
void elim(Ctx& c)
{
    Rng& r = c.r;
    int R = std::max(1, c.size(1)), C = std::max(1, c.size(1)), k = r.range(0, 40);
    M A(R, C);
    double tol = r.chance(1, 3) ? 0.0 : r.uniform(0.1, 1.5);
    SpModel N(R, C); std::set<std::pair<int, int>> used;
    int zeros = 0;
    for (int q = 0; q < k; ++q)
    {
        int i = r.range(0, R - 1), j = r.range(0, C - 1);
        if (!used.insert(std::make_pair(i, j)).second) continue;
        double v = r.chance(1, 4) ? 0.0 : gen_val(r, 2);
        if (r.chance(1, 8)) v = -0.0;
        A.Add(i, j, v);
        c.mix(i * 777 + j); c.mixd(v);
        if (v == 0) ++zeros;
        if (std::fabs(v) > tol) N.e[std::make_pair(i, j)] = v;
    }
    c.nontrivial = zeros > 0;
    c.describe("%dx%d k=%d tol=%g", R, C, k, tol);
    STEP("EliminateZeros");
    if (tol == 0 && r.chance(1, 2)) A.EliminateZeros(); else A.EliminateZeros(tol);
    SpModel G = wellformed(A.template ToSparse<double>(), R, C, "after EliminateZeros");
    same_sp(G, N, KEY, "EliminateZeros");
}
FAMILY(elim_coo, "coo.eliminate") { elim<CooMatrix<double>>(c); }
FAMILY(elim_lil, "lil.eliminate") { elim<LilMatrix<double>>(c); }

} // namespace
