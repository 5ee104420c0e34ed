// Printing (C27): the label, then every entry exactly once; nothing else changes.
#include "sp.hpp"
#include <unistd.h>
#include <fcntl.h>
using namespace linalgcpp;
using namespace vh;

namespace
{
// The stream given to the library: records what arrives, and what state it is left in.
struct Sink
{
    std::ostringstream os;
    std::ios::fmtflags flags; std::streamsize prec; char fill;
    std::string before;
    std::ostringstream stray; std::streambuf* old; int fd = -1, file = -1;
    ~Sink() { restore(); }
    void restore()
    {
        if (old) std::cout.rdbuf(old); old = nullptr;
        if (fd >= 0) { fflush(stdout); dup2(fd, 1); close(fd); fd = -1; }
    }
    explicit Sink(Rng& r) : old(std::cout.rdbuf(stray.rdbuf()))
    {
        if (r.chance(1, 16))
        {
            // below the C++ streams as well
            fflush(stdout); file = open((std::string(scratch_dir()) + "/stdout").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
            if (file >= 0) { fd = dup(1); dup2(file, 1); }
        }
        if (r.chance(1, 3)) os.precision(r.range(6, 17));
        if (r.chance(1, 6)) os << std::right;
        if (r.chance(1, 4)) { before = "earlier output\n"; os << before; }
        flags = os.flags(); prec = os.precision(); fill = os.fill();
    }
    std::string text(const char* what)
    {
        const bool low = fd >= 0; restore();
        CHECK(stray.str().empty(), "print-stray", "%s: '%s' went to standard output", what, stray.str().substr(0, 40).c_str());
        if (low) count("standard output descriptor watched");
        if (file >= 0) { long n = (long)lseek(file, 0, SEEK_END); close(file); file = -1; CHECK(n == 0, "print-stray", "%s: %ld bytes went to standard output", what, n); }
        std::string s = os.str();
        CHECK(s.compare(0, before.size(), before) == 0, "print-stream", "%s: earlier output is gone", what);
        CHECK(os.good(), "print-stream", "%s: the stream is left in a failed state", what);
        CHECK(os.flags() == flags && os.precision() == prec && os.fill() == fill, "print-stream", "%s: the stream's formatting was changed (flags %x to %x, precision %d to %d)", what, (unsigned)flags, (unsigned)os.flags(), (int)prec, (int)os.precision());
        count("printed texts read back");
        return s.substr(before.size());
    }
};
std::string label(Rng& r) { static const char* L[] = {"", "A", "label", "a longer label:", "row (1, 2) 3", "12"}; return L[r.range(0, 5)]; }
// the text after the label line
std::string body(const std::string& s, const std::string& lab, const char* what)
{
    CHECK(s.compare(0, lab.size() + 1, lab + "\n") == 0, "print-label", "%s: starts with '%s', expected the label '%s'", what, s.substr(0, 20).c_str(), lab.c_str());
    return s.substr(lab.size() + 1);
}
bool shown(double got, double v) { if (v != v) return got != got; if (std::isinf(v)) return got == v; return std::fabs(got - v) <= 1e-5 * std::fabs(v); }
double number(const std::string& t, const char* what)
{
    char* e = nullptr; double v = std::strtod(t.c_str(), &e);
    CHECK(e && *e == 0 && !t.empty(), "print-text", "%s: '%s' is not a number", what, t.c_str());
    return v;
}
template <typename T> T val(Rng& r)
{
    if (std::is_same<T, int>::value) return (T)(r.chance(1, 10) ? (r.chance(1, 2) ? INT_MAX : INT_MIN) : r.chance(1, 5) ? r.range(-1000000, 1000000) : r.range(-9, 9));
    switch (r.range(0, 9))
    {
        case 0: return (T)0;
        case 1: return (T)(r.uniform(-1, 1) * std::pow(10.0, r.range(-300, 300)));
        case 2: return (T)(r.chance(1, 2) ? 1e300 : 5e-324);
        case 3: return (T)(r.chance(1, 3) ? std::numeric_limits<double>::quiet_NaN() : r.chance(1, 2) ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity());
        case 4: return (T)(-0.0);
        case 5: return (T)r.range(-100000, 100000);
        default: return (T)gen_val(r, r.range(0, 3));
    }
}
bool same(double a, double b) { return a == b || (a != a && b != b); }

template <typename T>
void vectors(Ctx& c)
{
    Rng& r = c.r;
    int n = c.size();
    std::vector<T> v(n); for (T& x : v) x = val<T>(r);
    c.nontrivial = n > 1; c.mix(n); for (int i = 0; i < std::min(n, 4); ++i) c.mixd((double)v[i]);
    c.describe("vector n=%d", n);
    Vector<T> x(v); Sink s(r); std::string lab = label(r);
    int form = r.range(0, 3); c.mix(form);
    STEP(form == 0 ? "Print" : form == 1 ? "operator<<" : form == 2 ? "Print of a view" : "Print of a block");
    if (form == 0) x.Print(lab, s.os);
    else if (form == 1) { lab = ""; std::ostream& o = (s.os << x); CHECK(&o == &s.os, "print-stream", "operator<< returns another stream"); }
    else if (form == 2) { int a = r.range(0, n), b = r.range(a, n); VectorView<T> w(x.begin() + a, b - a); w.Print(lab, s.os); v = std::vector<T>(v.begin() + a, v.begin() + b); }
    else { int a = r.range(0, n); BlockVector<T> b(x, std::vector<int>{0, a, n}); if (r.chance(1, 2)) { b.Print(lab, s.os); } else { int k = r.range(0, 1); b.GetBlock(k).Print(lab, s.os); v = k ? std::vector<T>(v.begin() + a, v.end()) : std::vector<T>(v.begin(), v.begin() + a); } }
    std::istringstream in(body(s.text("vector"), lab, "vector")); std::string t; size_t k = 0;
    while (in >> t)
    {
        CHECK(k < v.size(), "print-entries", "more than %zu entries are printed", v.size());
        double g = number(t, "vector");
        CHECK(shown(g, (double)v[k]), "print-entries", "entry %zu is printed as %s, it is %.17g", k, t.c_str(), (double)v[k]); ++k;
    }
    CHECK(k == v.size(), "print-entries", "%zu of %zu entries are printed", k, v.size());
    if (form < 2) for (int i = 0; i < n; ++i) CHECK(same((double)x[i], (double)v[i]), "operand-changed", "entry %d changed by printing", i);
    if (r.chance(1, 4))
    {
        STEP("operator<< of a std::vector"); Sink q(r); linalgcpp::operator<<(q.os, v); std::istringstream is(q.text("std::vector")); size_t kk = 0;
        while (is >> t) { CHECK(kk < v.size() && shown(number(t, "std::vector"), (double)v[kk]), "print-entries", "std::vector entry %zu is printed as %s", kk, t.c_str()); ++kk; }
        CHECK(kk == v.size(), "print-entries", "%zu of %zu entries of a std::vector are printed", kk, v.size());
    }
}
// lines "(i, j) value"
struct Item { int i, j; double v; std::string t; };
bool item(const std::string& line, Item& e)
{
    char buf[400]; int used = 0;
    if (std::sscanf(line.c_str(), " ( %d , %d ) %399s %n", &e.i, &e.j, buf, &used) != 3) return false;
    if ((size_t)used != line.size() && line.find_first_not_of(" \t", used) != std::string::npos) return false;
    e.t = buf; e.v = number(e.t, "triplet"); return true;
}
bool blank(const std::string& l) { return l.find_first_not_of(" \t\r") == std::string::npos; }
std::vector<Item> items(const std::string& text, const char* what)
{
    std::istringstream in(text); std::string l; std::vector<Item> out; Item e;
    while (std::getline(in, l)) { if (blank(l)) continue; CHECK(item(l, e), "print-text", "%s: line '%s' is not an entry", what, l.substr(0, 60).c_str()); out.push_back(e); }
    return out;
}
// as multisets: (i, j) -> values
void same_items(std::vector<Item> got, const std::vector<Item>& want, const char* what)
{
    CHECK(got.size() == want.size(), "print-entries", "%s: %zu entries are printed, there are %zu", what, got.size(), want.size());
    std::map<std::pair<int, int>, std::vector<double>> m;
    for (auto& e : want) m[std::make_pair(e.i, e.j)].push_back(e.v);
    for (auto& e : got)
    {
        auto it = m.find(std::make_pair(e.i, e.j));
        CHECK(it != m.end() && !it->second.empty(), "print-entries", "%s: (%d, %d) %s is printed and is not there", what, e.i, e.j, e.t.c_str());
        bool hit = false;
        for (size_t q = 0; q < it->second.size(); ++q) if (shown(e.v, it->second[q])) { it->second.erase(it->second.begin() + q); hit = true; break; }
        CHECK(hit, "print-entries", "%s: (%d, %d) is printed as %s, it is %.17g", what, e.i, e.j, e.t.c_str(), it->second[0]);
    }
}
void grid(const std::string& text, const Ref& R, double tol, const char* what)
{
    std::istringstream in(text); std::string l; int i = 0;
    while (std::getline(in, l))
    {
        if (blank(l)) { if (R.n == 0) continue; CHECK(i == R.m || R.m == 0, "print-text", "%s: blank line after %d of %d rows", what, i, R.m); continue; }
        CHECK(i < R.m, "print-entries", "%s: more than %d rows are printed", what, R.m);
        std::istringstream ls(l); std::string t; int j = 0;
        while (ls >> t)
        {
            CHECK(j < R.n, "print-entries", "%s: more than %d columns are printed in row %d", what, R.n, i);
            double g = number(t, what), v = R(i, j);
            CHECK(v != v ? g != g : std::isinf(v) ? g == v : std::fabs(g - v) <= tol + 1e-15 * std::fabs(v), "print-entries", "%s: entry (%d,%d) is printed as %s, it is %.17g", what, i, j, t.c_str(), v);
            ++j;
        }
        CHECK(j == R.n, "print-entries", "%s: row %d shows %d of %d columns", what, i, j, R.n);
        ++i;
    }
    CHECK(i == R.m || R.n == 0, "print-entries", "%s: %d of %d rows are printed", what, i, R.m);
}
double tame(Rng& r, bool ints) { return ints ? r.range(-9, 9) : r.chance(1, 8) ? 0.0 : r.uniform(-9.9, 9.9); }

template <typename T>
void sparses(Ctx& c)
{
    Rng& r = c.r; const bool ints = std::is_same<T, int>::value;
    int m = c.size(), n = c.size(); if (m > 40) m = 40; if (n > 40) n = 40;
    const bool dense = r.chance(1, 3);
    SpModel M(m, n); int k = (m && n) ? r.range(0, 60) : 0;
    for (int q = 0; q < k; ++q) M.e[std::make_pair(r.range(0, m - 1), r.range(0, n - 1))] = dense ? tame(r, ints) : (double)val<T>(r);
    SparseMatrix<T> A = build_csr<T>(r, M, true);
    c.nontrivial = M.e.size() > 1; c.mix(m); c.mix(n); c.mix(M.e.size()); c.mix(dense); if (!M.e.empty()) c.mixd(M.e.begin()->second);
    c.describe("sparse %dx%d, %zu entries, %s", m, n, M.e.size(), dense ? "dense form" : "triplets");
    Sink s(r); std::string lab = label(r);
    STEP(dense ? "PrintDense" : "Print");
    if (dense) A.PrintDense(lab, s.os); else A.Print(lab, s.os);
    std::string b = body(s.text("sparse"), lab, "sparse");
    if (dense) grid(b, M.dense(), 0.5e-4 * 1.001, "PrintDense");
    else { std::vector<Item> w; for (auto& e : M.e) w.push_back(Item{e.first.first, e.first.second, e.second, ""}); same_items(items(b, "sparse"), w, "sparse"); }
    STEP("afterwards");
    SpModel after = wellformed(A, m, n, "printed matrix");
    for (auto& e : M.e) CHECK(same(after.get(e.first.first, e.first.second), e.second), "operand-changed", "entry (%d,%d) changed by printing", e.first.first, e.first.second);
}
template <typename C, typename T>
void builders(Ctx& c, const char* name)
{
    Rng& r = c.r; const bool ints = std::is_same<T, int>::value;
    const bool sized = r.chance(1, 2);
    int m = r.range(1, 12), n = r.range(1, 12), k = r.range(0, 30);
    C A = sized ? C(m, n) : C();
    std::vector<Item> all; std::map<std::pair<int, int>, long double> sum; std::map<std::pair<int, int>, double> mag;
    for (int q = 0; q < k; ++q)
    {
        Item e{r.range(0, m - 1), r.range(0, n - 1), ints ? (double)r.range(-20, 20) : gen_val(r, r.range(0, 2)), ""};
        if (sized && r.chance(1, 5) && e.i < n && e.j < m) { A.AddSym(e.i, e.j, (T)e.v); all.push_back(e); if (e.i != e.j) { std::swap(e.i, e.j); all.push_back(e); } }
        else { A.Add(e.i, e.j, (T)e.v); all.push_back(e); }
    }
    for (auto& e : all) { sum[std::make_pair(e.i, e.j)] += e.v; mag[std::make_pair(e.i, e.j)] += std::fabs(e.v); }
    c.nontrivial = all.size() > 1; c.mix(k); c.mix(all.size()); for (size_t i = 0; i < std::min<size_t>(4, all.size()); ++i) { c.mix(all[i].i * 100 + all[i].j); c.mixd(all[i].v); }
    c.describe("%s %zu contributions", name, all.size());
    SparseMatrix<T> before = A.ToSparse();
    Sink s(r); std::string lab = label(r);
    STEP("Print"); A.Print(lab, s.os);
    // contributions may be listed one by one or added up: what is shown adds up to the matrix
    std::map<std::pair<int, int>, double> got;
    std::vector<Item> it = items(body(s.text(name), lab, name), name);
    for (auto& e : it) { auto p = std::make_pair(e.i, e.j); CHECK(sum.count(p), "print-entries", "%s: (%d, %d) is printed and was never added", name, e.i, e.j); got[p] += e.v; }
    CHECK(it.size() <= all.size(), "print-entries", "%s: %zu entries are printed, %zu were added", name, it.size(), all.size());
    for (auto& p : sum) CHECK(std::fabs((got.count(p.first) ? got[p.first] : 0) - (double)p.second) <= 1e-5 * mag[p.first], "print-entries", "%s: what is printed for (%d, %d) adds up to %.9g, the matrix has %.9g", name, p.first.first, p.first.second, got.count(p.first) ? got[p.first] : 0.0, (double)p.second);
    STEP("afterwards");
    SparseMatrix<T> after = A.ToSparse();
    CHECK(after.Rows() == before.Rows() && after.Cols() == before.Cols() && after.GetIndptr() == before.GetIndptr() && after.GetIndices() == before.GetIndices() && after.GetData() == before.GetData(), "operand-changed", "%s converts to another matrix after printing", name);
}
FAMILY(vd, "show.vector.double") { vectors<double>(c); }
FAMILY(vi, "show.vector.int") { vectors<int>(c); }
FAMILY(sd, "show.sparse.double") { sparses<double>(c); }
FAMILY(si, "show.sparse.int") { sparses<int>(c); }
FAMILY(build, "show.builders")
{
    switch (c.r.range(0, 3))
    {
        case 0: builders<CooMatrix<double>, double>(c, "coo"); break;
        case 1: builders<CooMatrix<int>, int>(c, "coo int"); break;
        case 2: builders<LilMatrix<double>, double>(c, "lil"); break;
        default: builders<LilMatrix<int>, int>(c, "lil int"); break;
    }
}
FAMILY(dense, "show.dense")
{
    Rng& r = c.r;
    int m = c.size(), n = c.size(); if (m > 40) m = 40; if (n > 40) n = 40;
    int form = r.range(0, 2), width = form == 0 ? 8 : r.range(30, 60), prec = form == 0 ? 4 : r.range(0, 14);
    Ref R(m, n);
    for (double& v : R.a) v = form == 0 ? tame(r, false) : r.chance(1, 20) ? (double)val<double>(r) : gen_val(r, r.range(0, 3));
    for (double& v : R.a) if (std::fabs(v) > 1e9 && std::isfinite(v)) v = 7;
    c.nontrivial = m > 0 && n > 0 && m + n > 2; c.mix(m); c.mix(n); c.mix(form); c.mix(width); c.mix(prec); for (size_t i = 0; i < std::min<size_t>(3, R.a.size()); ++i) c.mixd(R.a[i]);
    c.describe("dense %dx%d width=%d precision=%d", m, n, width, prec);
    DenseMatrix A = dense_of(R); Sink s(r); std::string lab = label(r);
    STEP("Print");
    if (form == 0) A.Print(lab, s.os); else A.Print(lab, s.os, width, prec);
    std::string b = body(s.text("dense"), lab, "dense");
    grid(b, R, 0.5 * std::pow(10.0, -prec) * 1.001, "dense");
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) CHECK(same(A(i, j), R(i, j)), "operand-changed", "entry (%d,%d) changed by printing", i, j);
    if (r.chance(1, 8))
    {
        // without a stream: standard output
        STEP("Print to standard output");
        std::string path = std::string(scratch_dir()) + "/shown";
        std::streambuf* old = std::cout.rdbuf(); std::ostringstream cap; std::cout.rdbuf(cap.rdbuf());
        auto fl = std::cout.flags(); auto pr = std::cout.precision();
        A.Print(lab);
        std::cout.rdbuf(old);
        CHECK(std::cout.flags() == fl && std::cout.precision() == pr, "print-stream", "standard output is left with other formatting");
        if (form == 0) grid(body(cap.str(), lab, "dense"), R, 0.5e-4 * 1.001, "dense to standard output");
        else CHECK(cap.str().compare(0, lab.size(), lab) == 0, "print-label", "standard output does not start with the label");
    }
}
template <typename T>
void blocks(Ctx& c)
{
    Rng& r = c.r; const bool ints = std::is_same<T, int>::value;
    int rb = r.range(1, 3), cb = r.range(1, 3);
    std::vector<int> ro(1, 0), co(1, 0); for (int i = 0; i < rb; ++i) ro.push_back(ro.back() + r.range(0, 6)); for (int i = 0; i < cb; ++i) co.push_back(co.back() + r.range(0, 6));
    BlockMatrix<T> A(ro, co); Ref R(ro.back(), co.back());
    std::vector<std::vector<SpModel>> B(rb, std::vector<SpModel>(cb)); size_t nnz = 0;
    for (int i = 0; i < rb; ++i) for (int j = 0; j < cb; ++j)
    {
        if (r.chance(1, 4)) continue;
        int bm = ro[i + 1] - ro[i], bn = co[j + 1] - co[j];
        SpModel M(bm, bn); int k = bm && bn ? r.range(0, 9) : 0;
        for (int q = 0; q < k; ++q) M.e[std::make_pair(r.range(0, bm - 1), r.range(0, bn - 1))] = tame(r, ints);
        A.SetBlock(i, j, build_csr<T>(r, M, true)); B[i][j] = M; nnz += M.e.size();
        for (auto& e : M.e) R(ro[i] + e.first.first, co[j] + e.first.second) = e.second;
    }
    c.nontrivial = nnz > 1; c.mix(nnz); c.mix(R.m); c.mix(R.n); c.mix(rb * 10 + cb); c.describe("block %dx%d blocks, %dx%d, %zu entries", rb, cb, R.m, R.n, nnz);
    Sink s(r); std::string lab = label(r);
    if (r.chance(1, 3)) { STEP("PrintDense"); A.PrintDense(lab, s.os); grid(body(s.text("block"), lab, "block"), R, 0.5e-4 * 1.001, "block PrintDense"); }
    else
    {
        STEP("Print"); A.Print(lab, s.os);
        std::istringstream in(body(s.text("block"), lab, "block")); std::string l; int bi = -1, bj = -1; std::set<std::pair<int, int>> seen; Item e;
        std::map<std::pair<int, int>, std::vector<Item>> got;
        while (std::getline(in, l))
        {
            int a, b; if (blank(l)) continue;
            if (std::sscanf(l.c_str(), "block (%d,%d)", &a, &b) == 2) { bi = a; bj = b; CHECK(a >= 0 && a < rb && b >= 0 && b < cb && seen.insert(std::make_pair(a, b)).second, "print-entries", "block (%d,%d) is announced twice or does not exist", a, b); continue; }
            CHECK(bi >= 0 && item(l, e), "print-text", "line '%s' is neither a block nor an entry", l.substr(0, 60).c_str());
            got[std::make_pair(bi, bj)].push_back(e);
        }
        for (int i = 0; i < rb; ++i) for (int j = 0; j < cb; ++j)
        {
            std::vector<Item> w; for (auto& p : B[i][j].e) w.push_back(Item{p.first.first, p.first.second, p.second, ""});
            if (!w.empty()) CHECK(seen.count(std::make_pair(i, j)), "print-entries", "block (%d,%d) with %zu entries is not announced", i, j, w.size());
            same_items(got[std::make_pair(i, j)], w, "block");
        }
    }
}
FAMILY(bd, "show.block.double") { blocks<double>(c); }
FAMILY(bi, "show.block.int") { blocks<int>(c); }
} // namespace
