// Views that live on while the storage they refer to, and each other, change (C04).
// Several owners of every kind, many tracked views; after every step every owner entry, every
// view's address, extent and contents are compared with a model that knows who refers to what.
#include "common.hpp"
#include "gen.hpp"
#include "linalgcpp.hpp"

using namespace linalgcpp;
using vh::Ctx;
using vh::Rng;

namespace
{
template <typename T>
struct Owner
{
    std::string kind;
    std::vector<T> model;
    virtual ~Owner() {}
    virtual T* base() = 0;                         // where the storage starts
    virtual T get(int i) const = 0;                // read through the owner's own interface
    virtual void put(int i, T v) = 0;              // write through the owner's own interface
    virtual void scalar(T v) { for (size_t i = 0; i < model.size(); ++i) put((int)i, v); }
    virtual int parts() const { return 0; }        // natural sub-ranges: blocks, columns, rows
    virtual void part(int, int&, int&) const {}
    virtual void assign_from_part(VectorView<T>&, int, bool) {}  // v = owner.GetPart(p), mutable or const
    virtual VectorView<T>* new_part(int) { return nullptr; }
    virtual void check_parts(const char*) {}
    virtual void intact(const char*) const {}
};

template <typename T>
struct VecOwner : Owner<T>
{
    Vector<T> v;
    VecOwner(const std::vector<T>& m) : v(m) { this->kind = "Vector"; this->model = m; }
    T* base() { return v.begin(); }
    T get(int i) const { return v[i]; }
    void put(int i, T x) { v[i] = x; }
    void scalar(T x) { v = x; }
    void intact(const char* key) const
    {
        CHECK(v.size() == (int)this->model.size() && (int)v.data().size() == v.size() && v.data().data() == v.begin(), key, "the vector's size or storage changed");
    }
};
template <typename T>
struct BlockOwner : Owner<T>
{
    std::vector<int> off;
    BlockVector<T> v;
    BlockOwner(const std::vector<T>& m, const std::vector<int>& o) : off(o), v(o)
    {
        this->kind = "BlockVector"; this->model = m;
        for (size_t i = 0; i < m.size(); ++i) v[i] = m[i];
    }
    T* base() { return v.begin(); }
    T get(int i) const { return v[i]; }
    void put(int i, T x) { v[i] = x; }
    void scalar(T x) { v = x; }
    int parts() const { return (int)off.size() - 1; }
    void part(int p, int& lo, int& len) const { lo = off[p]; len = off[p + 1] - off[p]; }
    void assign_from_part(VectorView<T>& w, int p, bool cst)
    {
        const BlockVector<T>& cv = v;
        if (cst) w = cv.GetBlock(p); else w = v.GetBlock(p);
    }
    VectorView<T>* new_part(int p) { return new VectorView<T>(v.GetBlock(p)); }
    void check_parts(const char* key)
    {
        const BlockVector<T>& cv = v;
        for (int p = 0; p < parts(); ++p)
        {
            const VectorView<T>& a = cv.GetBlock(p);
            VectorView<T> b(v.GetBlock(p));
            CHECK(a.size() == off[p + 1] - off[p] && b.size() == a.size(), key, "block %d has size %d/%d", p, a.size(), b.size());
            CHECK(a.begin() == v.begin() + off[p] && b.begin() == a.begin() && b.end() == b.begin() + b.size(), key, "block %d does not lie in the vector", p);
        }
    }
    void intact(const char* key) const { CHECK(v.GetOffsets() == off && v.size() == (int)this->model.size(), key, "the block vector's layout changed"); }
};
template <typename T>
struct StdOwner : Owner<T>
{
    std::vector<T> v;
    StdOwner(const std::vector<T>& m) : v(m) { this->kind = "std::vector"; this->model = m; }
    T* base() { return v.data(); }
    T get(int i) const { return v[i]; }
    void put(int i, T x) { v[i] = x; }
    int parts() const { return 1; }
    void part(int, int& lo, int& len) const { lo = 0; len = (int)v.size(); }
    void assign_from_part(VectorView<T>& w, int, bool) { w = VectorView<T>(v); }
    VectorView<T>* new_part(int) { return new VectorView<T>(v); }
    void intact(const char* key) const { CHECK(v.size() == this->model.size(), key, "the std::vector's size changed"); }
};
template <typename T>
struct RawOwner : Owner<T>
{
    std::unique_ptr<T[]> v;
    int n;
    RawOwner(const std::vector<T>& m) : v(new T[m.size() + 2]), n((int)m.size())
    {
        this->kind = "array"; this->model = m;
        for (int i = 0; i < n; ++i) v[i + 1] = m[i];
        v[0] = (T)12345; v[n + 1] = (T)12345;
    }
    T* base() { return v.get() + 1; }
    T get(int i) const { return v[i + 1]; }
    void put(int i, T x) { v[i + 1] = x; }
    void intact(const char* key) const { CHECK(v[0] == (T)12345 && v[n + 1] == (T)12345, key, "an entry beside the array was written"); }
};
struct DenseOwner : Owner<double>
{
    int m, n;
    DenseMatrix A;
    DenseOwner(const std::vector<double>& v, int m_, int n_) : m(m_), n(n_), A(m_, n_)
    {
        kind = "DenseMatrix"; model = v;
        for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) A(i, j) = v[(size_t)j * m + i];
    }
    double* base() { return A.GetColView(0).begin(); }
    double get(int i) const { return A(i % m, i / m); }
    void put(int i, double x) { A(i % m, i / m) = x; }
    void scalar(double x) { A = x; }
    int parts() const { return n; }
    void part(int p, int& lo, int& len) const { lo = p * m; len = m; }
    void assign_from_part(VectorView<double>& w, int p, bool cst)
    {
        const DenseMatrix& cA = A;
        if (cst) w = cA.GetColView(p); else w = A.GetColView(p);
    }
    VectorView<double>* new_part(int p) { return new VectorView<double>(A.GetColView(p)); }
    void check_parts(const char* key)
    {
        const DenseMatrix& cA = A;
        for (int p = 0; p < n; ++p)
        {
            const VectorView<double>& a = cA.GetColView(p);
            VectorView<double> b(A.GetColView(p));
            CHECK(a.size() == m && b.size() == m, key, "column view %d has size %d/%d", p, a.size(), b.size());
            CHECK(a.begin() == &A(0, p) && b.begin() == a.begin() && b.end() == b.begin() + m, key, "column view %d does not lie in the matrix", p);
        }
    }
    void intact(const char* key) const { CHECK(A.Rows() == m && A.Cols() == n, key, "the dense matrix changed shape"); }
};
// the column indices of a sparse matrix, whose views are per row
struct SparseOwner : Owner<int>
{
    std::vector<int> ip;
    std::vector<double> data;
    SparseMatrix<double> A;
    SparseOwner(const std::vector<int>& v, const std::vector<int>& ip_, int cols)
        : ip(ip_), data(v.size(), 1.5), A(ip_, v, std::vector<double>(v.size(), 1.5), (int)ip_.size() - 1, cols)
    { kind = "SparseMatrix"; model = v; }
    int* base() { return A.GetIndices().data(); }
    int get(int i) const { const SparseMatrix<double>& c = A; return c.GetIndices()[i]; }
    void put(int i, int x) { A.GetIndices()[i] = x; }
    int parts() const { return (int)ip.size() - 1; }
    void part(int p, int& lo, int& len) const { lo = ip[p]; len = ip[p + 1] - ip[p]; }
    void assign_from_part(VectorView<int>& w, int p, bool cst)
    {
        const SparseMatrix<double>& cA = A;
        if (cst) w = cA.GetIndicesView(p); else w = A.GetIndicesView(p);
    }
    VectorView<int>* new_part(int p) { return new VectorView<int>(A.GetIndicesView(p)); }
    void check_parts(const char* key)
    {
        const SparseMatrix<double>& cA = A;
        for (int p = 0; p < parts(); ++p)
        {
            const VectorView<int>& a = cA.GetIndicesView(p);
            VectorView<int> b(A.GetIndicesView(p));
            const int len = ip[p + 1] - ip[p];
            CHECK(a.size() == len && b.size() == len, key, "row view %d has size %d/%d, the row stores %d", p, a.size(), b.size(), len);
            if (len) CHECK(a.begin() == cA.GetIndices().data() + ip[p] && b.begin() == a.begin() && b.end() == b.begin() + len, key, "row view %d does not lie in the matrix", p);
            CHECK(A.RowSize(p) == len, key, "row %d changed length", p);
        }
    }
    void intact(const char* key) const
    {
        CHECK(A.GetIndptr() == ip && A.GetData() == data && A.GetIndices().size() == model.size(), key, "something other than the indices changed");
    }
};

template <typename T>
struct Tracked { std::unique_ptr<VectorView<T>> v; int ow, off, len; };

template <typename T> void extra_owners(Rng& r, std::vector<std::unique_ptr<Owner<T>>>& o);
template <> void extra_owners<double>(Rng& r, std::vector<std::unique_ptr<Owner<double>>>& o)
{
    const int m = r.range(1, 6), n = r.range(1, 5);
    std::vector<double> v((size_t)m * n);
    for (double& x : v) x = r.range(0, 2);
    o.emplace_back(new DenseOwner(v, m, n));
}
template <> void extra_owners<int>(Rng& r, std::vector<std::unique_ptr<Owner<int>>>& o)
{
    const int rows = r.range(1, 6), cols = r.range(3, 9);
    std::vector<int> ip(1, 0), ind;
    for (int i = 0; i < rows; ++i)
    {
        int k = r.chance(1, 2) ? r.range(0, 1) : r.range(0, 3);
        int at = r.range(0, cols - 3);
        for (int j = 0; j < k; ++j) ind.push_back(at + j);
        ip.push_back((int)ind.size());
    }
    o.emplace_back(new SparseOwner(ind, ip, cols));
}

template <typename T>
void by_value(VectorView<T> v, T x) { v = x; }

template <typename T>
void live(Ctx& c)
{
    Rng& r = c.r;
    const char* key = "view-live";
    std::vector<std::unique_ptr<Owner<T>>> own;
    auto small = [&](int n) { std::vector<T> v(n); for (T& x : v) x = (T)r.range(0, 2); return v; };
    auto len = [&]() { return c.big && r.chance(1, 4) ? r.range(40, 120) : r.range(0, 8); };
    own.emplace_back(new VecOwner<T>(small(len())));
    own.emplace_back(new StdOwner<T>(small(len())));
    own.emplace_back(new RawOwner<T>(small(len())));
    {
        std::vector<int> off(1, 0);
        for (int b = r.range(1, 4); b > 0; --b) off.push_back(off.back() + r.range(0, 4));
        own.emplace_back(new BlockOwner<T>(small(off.back()), off));
    }
    extra_owners<T>(r, own);
    std::vector<Tracked<T>> vs;
    auto add = [&](VectorView<T>* v, int o, int lo, int n)
    {
        Tracked<T> t; t.v.reset(v); t.ow = o; t.off = lo; t.len = n;
        vs.push_back(std::move(t));
    };
    auto fresh = [&]()
    {
        const int o = r.range(0, (int)own.size() - 1);
        Owner<T>& O = *own[o];
        const int n = (int)O.model.size();
        if (O.parts() && r.chance(1, 2))
        {
            int lo, k, p = r.range(0, O.parts() - 1);
            O.part(p, lo, k);
            STEP("view of a part"); add(O.new_part(p), o, lo, k);
        }
        else
        {
            int lo = r.range(0, n), k = r.range(0, n - lo);
            STEP("view of a range"); add(new VectorView<T>(O.base() + lo, k), o, lo, k);
        }
    };
    auto model = [&](const Tracked<T>& t, int i) -> T& { return own[t.ow]->model[t.off + i]; };
    auto snap = [&](const Tracked<T>& t) { std::vector<T> v(t.len); for (int i = 0; i < t.len; ++i) v[i] = own[t.ow]->model[t.off + i]; return v; };
    // copying forwards into a range that starts inside the source is not asked of a view
    auto apart = [&](const Tracked<T>& d, int o, int off, int n) { return d.ow != o || off == d.off || d.off >= off + n || off >= d.off + d.len; };
    auto clash = [&](const Tracked<T>& d, int o, int off, int n) { return d.ow == o && off < d.off && d.off < off + n; };
    for (int i = r.range(3, 6); i > 0; --i) fresh();
    const int nops = r.range(6, 22);
    c.nontrivial = vs.size() > 1;
    c.describe("%d owners, %d views, ops:", (int)own.size(), (int)vs.size());
    for (int s = 0; s < nops; ++s)
    {
        if (vs.empty()) fresh();
        const int a = r.range(0, (int)vs.size() - 1), op = r.range(0, 17);
        Tracked<T>& A = vs[a];
        VectorView<T>& va = *A.v;
        c.mix(op); c.mix(A.ow * 1000 + A.off); c.mix(A.len);
        if (s < 12) c.describe(" %d:%s[%d,%d)", op, own[A.ow]->kind.c_str(), A.off, A.off + A.len);
        // another view of the same length, if there is one
        int b = -1;
        for (int t = 0, st = r.range(0, (int)vs.size() - 1); t < (int)vs.size(); ++t)
        {
            int k = (st + t) % (int)vs.size();
            if (k != a && vs[k].len == A.len && !clash(A, vs[k].ow, vs[k].off, vs[k].len)) { b = k; break; }
        }
        auto take = [&](const std::vector<T>& v) { for (int i = 0; i < A.len; ++i) model(A, i) = v[i]; };
        if (op == 0) { T x = (T)r.range(0, 2); STEP("view = scalar"); va = x; for (int i = 0; i < A.len; ++i) model(A, i) = x; }
        else if (op == 1 && A.len) { int k = r.range(0, A.len - 1); T x = (T)r.range(0, 9); STEP("view[i] = x"); va[k] = x; model(A, k) = x; }
        else if (op == 2 && b >= 0) { std::vector<T> v = snap(vs[b]); STEP("view = view"); va = *vs[b].v; take(v); vh::count("assignments between views"); }
        else if (op == 3 && b >= 0)
        {
            std::vector<T> v = snap(vs[b]);
            STEP("view = temporary view"); va = VectorView<T>(*vs[b].v); take(v);
            vh::count("assignments between views");
            if (apart(A, vs[b].ow, vs[b].off, vs[b].len) && r.chance(1, 2)) { STEP("view = temporary view again"); va = VectorView<T>(own[vs[b].ow]->base() + vs[b].off, vs[b].len); vh::count("assignments of equal contents"); }
        }
        else if (op == 4 && b >= 0) { std::vector<T> v = snap(vs[b]); STEP("view = const view"); va = static_cast<const VectorView<T>&>(*vs[b].v); take(v); vh::count("assignments between views"); }
        else if (op == 5)
        {
            std::vector<T> v = r.chance(1, 3) ? snap(A) : small(A.len);
            Vector<T> w(v);
            int k = r.range(0, 2);
            STEP("view = Vector");
            if (k == 0) va = w;
            if (k == 1) va = static_cast<const Vector<T>&>(w);
            if (k == 2) va = Vector<T>(v);
            take(v);
            if (A.len) w[0] = (T)555;
        }
        else if (op == 6)
        {
            // from a part of an owner, fetched on the spot, mutable or const
            for (int t = 0, st = r.range(0, 99); t < 12; ++t)
            {
                int o = (st + t) % (int)own.size();
                Owner<T>& O = *own[o];
                if (!O.parts()) continue;
                int p = (st + 3 * t) % O.parts(), lo, n;
                O.part(p, lo, n);
                if (n != A.len || clash(A, o, lo, n)) continue;
                std::vector<T> v(O.model.begin() + lo, O.model.begin() + lo + n);
                bool cst = r.chance(1, 2);
                STEP(cst ? "view = const part of an owner" : "view = part of an owner");
                O.assign_from_part(va, p, cst); take(v);
                if (apart(A, o, lo, n) && r.chance(1, 2)) O.assign_from_part(va, p, cst);
                vh::count("assignments from blocks, columns and rows");
                break;
            }
        }
        else if (op == 7)
        {
            int k = r.range(0, 4); T x = (T)r.range(1, 3);
            STEP("view op= scalar");
            if (k == 0) { va += x; for (int i = 0; i < A.len; ++i) model(A, i) += x; }
            if (k == 1) { va -= x; for (int i = 0; i < A.len; ++i) model(A, i) -= x; }
            if (k == 2) { va *= x; for (int i = 0; i < A.len; ++i) model(A, i) *= x; }
            if (k == 3) { va *= (T)2; va /= (T)2; }
            if (k == 4) { STEP("passed by value"); by_value(*A.v, x); for (int i = 0; i < A.len; ++i) model(A, i) = x; }
        }
        else if (op == 8 && b >= 0)
        {
            std::vector<T> v = snap(vs[b]);
            const bool overlap = A.ow == vs[b].ow && A.off < vs[b].off + vs[b].len && vs[b].off < A.off + A.len && A.off != vs[b].off;
            if (!overlap)
            {
                VectorView<T>& vb = *vs[b].v;
                int k = r.range(0, 7);
                STEP("view op= view");
                for (int i = 0; i < A.len; ++i)
                {
                    T& m = model(A, i);
                    if (k == 0 || k == 3) m += v[i];
                    if (k == 1 || k == 4) m -= v[i];
                    if (k == 2) m *= v[i];
                    if (k == 5) m = v[i];
                    if (k == 6) m = (T)(m + 2 * v[i]);
                    if (k == 7) m = (T)(-1 * v[i]);
                }
                if (k == 0) va += vb;
                if (k == 1) va -= vb;
                if (k == 2) va *= vb;
                if (k == 3) va.Add(vb);
                if (k == 4) va.Sub(vb);
                if (k == 5) va.Set(vb);
                if (k == 6) va.Add(2.0, vb);
                if (k == 7) va.Set(-1.0, vb);
            }
        }
        else if (op == 9) { STEP("copy of a view"); int o = A.ow, lo = A.off, n = A.len; add(new VectorView<T>(va), o, lo, n); }
        else if (op == 10)
        {
            STEP("moved view"); int o = A.ow, lo = A.off, n = A.len;
            VectorView<T>* w = new VectorView<T>(std::move(va));
            vs.erase(vs.begin() + a); add(w, o, lo, n);
        }
        else if (op == 11 && vs.size() > 1)
        {
            int k = r.range(0, (int)vs.size() - 1);
            STEP("swap of views"); swap(va, *vs[k].v);
            std::swap(A.ow, vs[k].ow); std::swap(A.off, vs[k].off); std::swap(A.len, vs[k].len);
            vh::count("swaps of views");
        }
        else if (op == 12)
        {
            Owner<T>& O = *own[r.range(0, (int)own.size() - 1)];
            STEP("owner written");
            if (r.chance(1, 3)) { T x = (T)r.range(0, 2); O.scalar(x); for (T& m : O.model) m = x; }
            else if (!O.model.empty()) { int k = r.range(0, (int)O.model.size() - 1); T x = (T)r.range(0, 9); O.put(k, x); O.model[k] = x; }
            vh::count("writes through an owner");
        }
        else if (op == 13)
        {
            std::vector<T> v = snap(A);
            STEP("Vector from a view"); Vector<T> d(va);
            vh::expect_vec(d, v, key, "Vector(view)");
            Vector<T> e(3, (T)7); e = va; vh::expect_vec(e, v, key, "Vector = view");
            Vector<T> f(A.len, (T)1); f = static_cast<const VectorView<T>&>(va); vh::expect_vec(f, v, key, "Vector = const view");
            CHECK(A.len == 0 || (d.begin() != va.begin() && e.begin() != va.begin() && f.begin() != va.begin()), key, "a Vector made from a view shares its storage");
            d = (T)91; e *= (T)3; f += (T)4;
            std::vector<int> ix;
            for (int i = 0; i < A.len; ++i) if (r.chance(1, 2)) ix.push_back(r.range(0, A.len - 1));
            STEP("GetSubVector"); Vector<T> sub = va.GetSubVector(ix);
            CHECK(sub.size() == (int)ix.size(), key, "GetSubVector size");
            for (size_t i = 0; i < ix.size(); ++i) CHECK(sub[i] == v[ix[i]], key, "GetSubVector entry");
            sub = (T)17;
        }
        else if (op == 14)
        {
            STEP("algorithm over begin/end"); std::vector<T> v = snap(A);
            if (r.chance(1, 2)) { std::sort(va.begin(), va.end()); std::sort(v.begin(), v.end()); }
            else { std::reverse(va.begin(), va.end()); std::reverse(v.begin(), v.end()); }
            take(v);
        }
        else if (op == 15 && vs.size() > 2) vs.erase(vs.begin() + a);
        else if (op == 16 && vs.size() < 12) fresh();
        else if (op == 17) { STEP("view = itself"); if (r.chance(1, 2)) va = va; else va = VectorView<T>(va); }

        // ---- the monitor
        STEP("monitor");
        for (size_t o = 0; o < own.size(); ++o)
        {
            Owner<T>& O = *own[o];
            O.intact(key);
            for (size_t i = 0; i < O.model.size(); ++i)
                CHECK(O.get((int)i) == O.model[i], key, "after op %d: %s entry %d is %g, expected %g", op, O.kind.c_str(), (int)i, (double)O.get((int)i), (double)O.model[i]);
            O.check_parts(key);
        }
        for (size_t k = 0; k < vs.size(); ++k)
        {
            const Tracked<T>& V = vs[k];
            VectorView<T>& v = *V.v;
            const VectorView<T>& cv = v;
            CHECK(v.size() == V.len && v.end() - v.begin() == V.len, key, "after op %d: a view has size %d, expected %d", op, v.size(), V.len);
            if (!V.len) continue;
            CHECK(v.begin() == own[V.ow]->base() + V.off && cv.begin() == v.begin(), key, "after op %d: view %d no longer refers to %s[%d,%d)", op, (int)k, own[V.ow]->kind.c_str(), V.off, V.off + V.len);
            for (int i = 0; i < V.len; ++i)
                CHECK(cv[i] == model(V, i) && v[i] == cv[i], key, "after op %d: view entry %d is %g, the owner has %g", op, i, (double)cv[i], (double)model(V, i));
        }
        vh::count("view states compared", (long)vs.size());
        // keep the numbers small enough for exact comparison, in place
        for (size_t o = 0; o < own.size(); ++o)
            for (size_t i = 0; i < own[o]->model.size(); ++i)
                if (std::fabs((double)own[o]->model[i]) > 1e4) { own[o]->put((int)i, (T)1); own[o]->model[i] = (T)1; }
    }
}
}
FAMILY(live_d, "views.live.double") { live<double>(c); }
FAMILY(live_i, "views.live.int") { live<int>(c); }
