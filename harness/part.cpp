// Graph partitioning (C21). METIS is wrapped, so the graph that reaches it is observed.
#include "sp.hpp"
#include "partition.hpp"
using namespace linalgcpp;
using namespace vh;

namespace
{
const char* KEY = "partition";
struct Seen { bool called; int calls; std::vector<std::map<int, long>> adj; std::vector<int> degree; bool weights; int nparts, contig; double ub; bool square; std::string bad; std::vector<int> part; } seen;
}

extern "C" int __real_METIS_PartGraphKway(idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, real_t*, real_t*, idx_t*, idx_t*, idx_t*);
#if VERIF_ASAN
extern "C" void* __asan_region_is_poisoned(void*, size_t);
static bool readable(const void* p, size_t n) { return !n || !__asan_region_is_poisoned(const_cast<void*>(p), n); }
#elif __has_include(<valgrind/memcheck.h>)
#include <valgrind/memcheck.h>
static bool readable(const void* p, size_t n) { return !RUNNING_ON_VALGRIND || !n || VALGRIND_CHECK_MEM_IS_DEFINED(p, n) == 0; }
#else
static bool readable(const void*, size_t) { return true; }
#endif
#if !VERIF_ASAN && defined(VALGRIND_CHECK_MEM_IS_ADDRESSABLE)
static bool writable(const void* p, size_t n) { return !RUNNING_ON_VALGRIND || !n || VALGRIND_CHECK_MEM_IS_ADDRESSABLE(p, n) == 0; }
#else
static bool writable(const void* p, size_t n) { return readable(p, n); }
#endif
extern "C" int __wrap_METIS_PartGraphKway(idx_t* n, idx_t* ncon, idx_t* xadj, idx_t* adjncy, idx_t* vwgt, idx_t* vsize, idx_t* adjwgt, idx_t* nparts, real_t* tp, real_t* ub, idx_t* opt, idx_t* objval, idx_t* part)
{
    count("monitor: graph handed to METIS observed");
    seen.called = true; ++seen.calls; seen.adj.assign(*n, std::map<int, long>()); seen.degree.assign(*n, 0); seen.weights = adjwgt != nullptr; seen.nparts = *nparts; seen.contig = opt ? opt[METIS_OPTION_CONTIG] : -1; seen.ub = ub ? ub[0] : 0;
    if (*ncon != 1) seen.bad = "ncon is not 1";
    if (!readable(xadj, (*n + 1) * sizeof(idx_t))) seen.bad = "row pointers too short";
    else if (xadj[0] != 0) seen.bad = "first row pointer not zero";
    else if (!readable(adjncy, xadj[*n] * sizeof(idx_t))) seen.bad = "adjacency array too short";
    else if (adjwgt && !readable(adjwgt, xadj[*n] * sizeof(idx_t))) seen.bad = "weight array too short";
    else if (!writable(part, *n * sizeof(idx_t))) seen.bad = "part array too short";
    else if (vwgt || vsize || tp) seen.bad = ""; // not part of the specification
    if (!seen.bad.empty()) return METIS_ERROR_INPUT;
    for (idx_t i = 0; i < *n; ++i) for (idx_t k = xadj[i]; k < xadj[i + 1]; ++k) { if (adjncy[k] < 0 || adjncy[k] >= *n) { seen.bad = "neighbour out of range"; return METIS_ERROR_INPUT; } seen.adj[i][adjncy[k]] = adjwgt ? (long)adjwgt[k] : 1; ++seen.degree[i]; }
    int st = __real_METIS_PartGraphKway(n, ncon, xadj, adjncy, vwgt, vsize, adjwgt, nparts, tp, ub, opt, objval, part);
    seen.part.assign(part, part + *n);
    return st;
}

namespace
{
struct Graph { int n; std::map<std::pair<int, int>, double> w; bool connected; };
int find(std::vector<int>& p, int i) { while (p[i] != i) i = p[i] = p[p[i]]; return i; }

Graph gen_graph(Ctx& c, bool want_connected, bool integral)
{
    Rng& r = c.r;
    Graph G; G.n = std::max(1, c.size(1)); int n = G.n;
    auto edge = [&](int i, int j) { if (i == j) return; double w = integral ? r.range(1, 9) : r.uniform(1.0, 20.0); if (r.chance(1, 3)) w = -w; if (r.chance(1, 30) && integral) w = r.range(100, 10000); G.w[std::make_pair(std::min(i, j), std::max(i, j))] = w; };
    int kind = r.range(0, 6);
    if (kind == 0) for (int i = 0; i + 1 < n; ++i) edge(i, i + 1);
    else if (kind == 1) { int s = (int)std::sqrt((double)n); if (s < 1) s = 1; for (int i = 0; i < n; ++i) { if ((i + 1) % s && i + 1 < n) edge(i, i + 1); if (i + s < n) edge(i, i + s); } }
    else if (kind == 2) for (int i = 1; i < n; ++i) edge(0, i);
    else if (kind == 3) for (int i = 1; i < n; ++i) edge(i, r.range(0, i - 1));
    else if (kind == 4) { for (int i = 1; i < n; ++i) edge(i, r.range(0, i - 1)); for (int k = 0; k < 2 * n; ++k) edge(r.range(0, n - 1), r.range(0, n - 1)); }
    else if (kind == 5 && n <= 30) for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) edge(i, j);
    else for (int k = r.range(0, 2 * n); k > 0; --k) edge(r.range(0, n - 1), r.range(0, n - 1));
    if (r.chance(1, 2)) // relabel
    {
        std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; r.shuffle(p);
        std::map<std::pair<int, int>, double> v; for (auto& q : G.w) v[std::make_pair(std::min(p[q.first.first], p[q.first.second]), std::max(p[q.first.first], p[q.first.second]))] = q.second; G.w = v;
    }
    std::vector<int> uf(n); for (int i = 0; i < n; ++i) uf[i] = i;
    for (auto& q : G.w) uf[find(uf, q.first.first)] = find(uf, q.first.second);
    if (want_connected)
    {
        std::vector<int> roots; for (int i = 0; i < n; ++i) if (find(uf, i) == i) roots.push_back(i);
        for (size_t k = 1; k < roots.size(); ++k) { edge(roots[k - 1], roots[k]); }
        G.connected = true;
    }
    else { int k = 0; for (int i = 0; i < n; ++i) k += find(uf, i) == i; G.connected = k == 1; }
    return G;
}
template <typename T>
SparseMatrix<T> matrix_of(Rng& r, const Graph& G, int diag)
{
    SpModel S(G.n, G.n);
    for (auto& q : G.w) { S.e[q.first] = q.second; S.e[std::make_pair(q.first.second, q.first.first)] = q.second; }
    for (int i = 0; i < G.n; ++i) if (diag == 1 || (diag == 2 && r.chance(1, 2))) S.e[std::make_pair(i, i)] = r.range(0, 5);
    return build_csr<T>(r, S, r.chance(1, 2));
}
void check_graph(const Graph& G, bool weighted, const std::vector<std::map<int, long>>& adj, const std::vector<int>& degree, bool weights, const char* what)
{
    CHECK((int)adj.size() == G.n, "partition-graph", "%s: %zu vertices, matrix has %d rows", what, adj.size(), G.n);
    size_t total = 0; for (int d : degree) total += d;
    CHECK(total == 2 * G.w.size(), "partition-graph", "%s: %zu adjacency entries, the matrix has %zu off-diagonal entries", what, total, 2 * G.w.size());
    for (auto& q : G.w)
        for (int s = 0; s < 2; ++s)
        {
            int i = s ? q.first.second : q.first.first, j = s ? q.first.first : q.first.second;
            auto it = adj[i].find(j);
            CHECK(it != adj[i].end(), "partition-graph", "%s: neighbour %d of %d is missing", what, j, i);
            long want = weighted ? (long)std::fabs(q.second) : 1;
            if (weighted || weights) CHECK(it->second == want, "partition-graph", "%s: edge (%d,%d) has weight %ld, expected %ld", what, i, j, it->second, want);
        }
}
void check_parts(const std::vector<int>& p, int n, int parts)
{
    CHECK((int)p.size() == n, KEY, "%zu part numbers for %d vertices", p.size(), n);
    std::set<int> used(p.begin(), p.end());
    int k = 0; for (int u : used) { CHECK(u == k, "partition-gaps", "part numbers are not 0..k-1: %d follows %d", u, k - 1); ++k; }
    CHECK(k <= parts, KEY, "%d parts, %d requested", k, parts);
}
void same_grouping(const std::vector<int>& p, const std::vector<int>& q, const char* what)
{
    std::map<int, int> f, g;
    for (size_t i = 0; i < p.size(); ++i)
    {
        if (!f.count(p[i])) f[p[i]] = q[i];
        if (!g.count(q[i])) g[q[i]] = p[i];
        CHECK(f[p[i]] == q[i] && g[q[i]] == p[i], "partition-grouping", "%s is not kept: vertex %zu in part %d comes out in part %d", what, i, p[i], q[i]);
    }
}
template <typename T>
void run(Ctx& c)
{
    Rng& r = c.r;
    bool integral = std::is_same<T, int>::value || r.chance(1, 2);
    bool contig = r.chance(1, 2), weighted = r.chance(1, 2);
    Graph G = gen_graph(c, contig, integral);
    int n = G.n, diag = r.range(0, 2);
    // without weights the values do not matter: zeros and fractions are stored edges all the same
    if (!weighted && r.chance(1, 3)) { vh::count("graphs with stored zeros or fractions as edges"); for (auto& q : G.w) if (r.chance(1, 3)) q.second = std::is_same<T, int>::value || r.chance(1, 2) ? 0.0 : r.chance(1, 2) ? r.uniform(-1.0, 1.0) : 1e-300; }
    SparseMatrix<T> A = matrix_of<T>(r, G, diag);
    const SparseMatrix<T> keep(A);
    int parts = r.chance(1, 8) ? n : r.chance(1, 8) ? 1 : r.range(1, std::min(n, 12));
    double ub = r.chance(1, 2) ? 1.0 : r.uniform(1.0, 2.0);
    c.describe("%d vertices, %zu edges, %d parts, contig=%d weighted=%d diagonal=%d unbalance=%g", n, G.w.size(), parts, contig, weighted, diag, ub);
    c.mix(n); c.mix(G.w.size()); c.mix(parts); c.mix(contig * 2 + weighted); c.mixd(ub); c.nontrivial = n > 2 && parts > 1 && !G.w.empty();
    STEP("MakeAdjacencyInfo");
    {
        auto info = MakeAdjacencyInfo<T, int>(A, weighted);
        const std::vector<int>& xa = std::get<0>(info); const std::vector<int>& ad = std::get<1>(info); const std::vector<int>& wt = std::get<2>(info);
        CHECK((int)xa.size() == n + 1 && xa[0] == 0 && xa[n] == (int)ad.size() && ad.size() == wt.size(), "partition-graph", "adjacency arrays: %zu pointers, %zu neighbours, %zu weights", xa.size(), ad.size(), wt.size());
        std::vector<std::map<int, long>> adj(n); std::vector<int> deg(n);
        for (int i = 0; i < n; ++i) { CHECK(xa[i] <= xa[i + 1], "partition-graph", "row pointers decrease"); for (int k = xa[i]; k < xa[i + 1]; ++k) { CHECK(ad[k] >= 0 && ad[k] < n && ad[k] != i, "partition-graph", "neighbour %d of %d", ad[k], i); adj[i][ad[k]] = wt[k]; ++deg[i]; } }
        check_graph(G, weighted, adj, deg, true, "MakeAdjacencyInfo");
    }
    STEP("Partition");
    seen = Seen(); seen.called = false;
    std::vector<int> p = Partition<T>(A, parts, ub, contig, weighted);
    CHECK(seen.bad.empty(), "partition-graph", "arrays handed to METIS: %s", seen.bad.c_str());
    if (seen.called)
    {
        check_graph(G, weighted, seen.adj, seen.degree, seen.weights, "graph handed to METIS");
        CHECK(seen.nparts == parts, KEY, "METIS is asked for %d parts instead of %d", seen.nparts, parts);
        CHECK(seen.contig == (contig ? 1 : 0), KEY, "METIS is called with contiguity %d, requested %d", seen.contig, contig);
        CHECK(std::fabs(seen.ub - ub) < 1e-5, KEY, "METIS is called with unbalance %g, requested %g", seen.ub, ub);
    }
    check_parts(p, n, parts);
    // with more than one part asked for, the vertices are grouped by METIS
    if (parts > 1) CHECK(seen.called || std::set<int>(p.begin(), p.end()).size() > 1, "partition-grouping", "%d parts requested of %d vertices: METIS was not asked and every vertex is in part 0", parts, n);
    if (seen.called)
    {
        same_grouping(seen.part, p, "the grouping returned by METIS");
        count("groupings compared with METIS");
        std::set<int> k(p.begin(), p.end()); count("parts returned", (long)k.size());
    }
    // whatever was partitioned in between
    if (r.chance(1, 2)) { STEP("another partition"); Graph H = gen_graph(c, false, integral); SparseMatrix<T> B = matrix_of<T>(r, H, r.range(0, 2)); std::vector<int> q = Partition<T>(B, r.range(1, std::min(H.n, 5)), 1.1, false, false); }
    STEP("Partition again");
    std::vector<int> p2 = Partition<T>(A, parts, ub, contig, weighted);
    CHECK(p == p2, "partition-repeat", "partitioning the same graph again gives a different result");
    CHECK(A.GetIndptr() == keep.GetIndptr() && A.GetIndices() == keep.GetIndices() && A.GetData() == keep.GetData(), KEY, "partitioning changed the matrix");
}
FAMILY(p_d, "partition.double") { run<double>(c); }
FAMILY(p_i, "partition.int") { run<int>(c); }

FAMILY(gaps, "partition.gaps")
{
    Rng& r = c.r;
    int n = c.size(1), hi = r.range(1, r.chance(1, 2) ? 5 : 3 * n);
    std::vector<int> p(n); for (int& v : p) v = r.range(0, hi - 1);
    if (r.chance(1, 4)) { int b = r.range(0, 9); for (int& v : p) v = b + (v > hi / 2 ? r.range(1, 40) * 0 + 7 : 0); }
    std::vector<int> q(p);
    c.mix(n); c.mix(hi); for (int i = 0; i < std::min(n, 6); ++i) c.mix(p[i]); c.nontrivial = n > 2; c.describe("%d vertices, parts below %d", n, hi);
    STEP("RemoveEmpty"); RemoveEmpty(q);
    check_parts(q, n, n);
    same_grouping(p, q, "renumbering");
}
} // namespace
