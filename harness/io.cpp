// Files: every writer/reader pair (C17), missing and damaged files (C18).
#include "sp.hpp"
#include <new>
#include <unistd.h>
#include <fcntl.h>
using namespace linalgcpp;
using namespace vh;

// A damaged size field may ask for any amount of memory. Refuse large requests the way the
// system does (bad_alloc) in every build, so that a run cannot exhaust the machine.
static const size_t CAP = (size_t)96 << 20;
static void* capped(size_t n)
{
    if (n > CAP) throw std::bad_alloc();
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return capped(n); }
void* operator new[](size_t n) { return capped(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return capped(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return capped(n); } catch (...) { return nullptr; } }
void operator delete(void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }

namespace
{
const char* RT = "io-roundtrip";

std::string path(const char* name) { return std::string(scratch_dir()) + "/" + name; }
void put(const std::string& p, const std::string& s) { FILE* f = fopen(p.c_str(), "wb"); if (!f) { perror(p.c_str()); _exit(3); } if (!s.empty()) fwrite(s.data(), 1, s.size(), f); fclose(f); }
std::string slurp(const std::string& p)
{
    std::string s; FILE* f = fopen(p.c_str(), "rb"); if (!f) return s;
    char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k);
    fclose(f); return s;
}
int next_fd() { int f = open("/dev/null", O_RDONLY); close(f); return f; }

double any_double(Rng& r, bool nonfinite)
{
    switch (r.range(0, 9))
    {
        case 0: return r.range(-9, 9);
        case 1: return 1.0 / r.range(1, 99);
        case 2: return std::ldexp(r.uniform(-1, 1), r.range(-1000, 1000));
        case 3: { static const double s[] = {DBL_MAX, -DBL_MAX, DBL_MIN, 4.9406564584124654e-324, -2.2250738585072009e-308, 1 + DBL_EPSILON, 0.1, 1e22, 9007199254740993.0, -0.0}; return s[r.range(0, 9)]; }
        case 4: if (nonfinite) return r.chance(1, 2) ? INFINITY : -INFINITY; return 0.3;
        case 5: { for (;;) { uint64_t b = r.next(); double d; std::memcpy(&d, &b, 8); if (std::isfinite(d)) return d; } }
        default: return r.uniform(-3, 3);
    }
}
template <typename T> T any_value(Rng& r, bool nonfinite) { return (T)any_double(r, nonfinite); }
template <> int any_value<int>(Rng& r, bool) { switch (r.range(0, 4)) { case 0: return INT_MAX; case 1: return INT_MIN; case 2: return (int)(uint32_t)r.next(); default: return r.range(-9, 9); } }

template <typename T> bool same_bits(T a, T b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }

template <typename T>
struct Mat { int m, n; std::map<std::pair<int, int>, T> e; Mat(int m_ = 0, int n_ = 0) : m(m_), n(n_) {} };

template <typename T>
Mat<T> read_back(const SparseMatrix<T>& A, int m, int n, const char* what)
{
    wellformed(A, m, n, what);
    Mat<T> M(m, n);
    for (int i = 0; i < m; ++i) for (int k = A.GetIndptr()[i]; k < A.GetIndptr()[i + 1]; ++k) M.e[std::make_pair(i, A.GetIndices()[k])] = A.GetData()[k];
    return M;
}
template <typename T>
void same(const Mat<T>& got, const Mat<T>& want, const char* what)
{
    for (auto& p : want.e)
    {
        auto it = got.e.find(p.first);
        CHECK(it != got.e.end(), RT, "%s: entry (%d,%d)=%.17g is missing", what, p.first.first, p.first.second, (double)p.second);
        CHECK(it->second == p.second, RT, "%s: entry (%d,%d) is %.17g, written %.17g", what, p.first.first, p.first.second, (double)it->second, (double)p.second);
    }
    CHECK(got.e.size() == want.e.size(), RT, "%s: %zu entries, written %zu", what, got.e.size(), want.e.size());
}
template <typename T>
Mat<T> trimmed(const Mat<T>& M) { Mat<T> R; R.e = M.e; for (auto& p : M.e) { R.m = std::max(R.m, p.first.first + 1); R.n = std::max(R.n, p.first.second + 1); } return R; }
template <typename T>
Mat<T> ones(const Mat<T>& M) { Mat<T> R(M); for (auto& p : R.e) p.second = 1; return R; }

template <typename T>
Mat<T> gen_mat(Ctx& c, bool symmetric)
{
    Rng& r = c.r;
    int m = c.size(), n = symmetric ? m : c.size();
    SpModel S = gen_sp(c, m, n, 0);
    Mat<T> M(m, n);
    for (auto& p : S.e) { T v = p.second == 0 ? (T)0 : any_value<T>(r, false); M.e[p.first] = v; if (symmetric) M.e[std::make_pair(p.first.second, p.first.first)] = v; }
    return M;
}
template <typename T>
SparseMatrix<T> to_csr(Rng& r, const Mat<T>& M)
{
    std::vector<std::vector<std::pair<int, T>>> rows(M.m);
    for (auto& p : M.e) rows[p.first.first].push_back(std::make_pair(p.first.second, p.second));
    std::vector<int> ptr(1, 0), ind; std::vector<T> dat;
    bool sh = r.chance(1, 2);
    for (auto& w : rows) { if (sh) r.shuffle(w); for (auto& q : w) { ind.push_back(q.first); dat.push_back(q.second); } ptr.push_back((int)ind.size()); }
    return SparseMatrix<T>(ptr, ind, dat, M.m, M.n);
}

template <typename T>
void roundtrip(Ctx& c)
{
    Rng& r = c.r;
    std::string f = path("rt");
    int fd0 = next_fd();
    // a longer unrelated file may already be there
    if (r.chance(1, 3)) put(f, std::string(r.range(1, 4000), r.chance(1, 2) ? '7' : '\n')); else unlink(f.c_str());
    int what = r.range(0, 9);
    if (what <= 1)
    {
        std::vector<T> v(c.size()); for (T& x : v) x = any_value<T>(r, what == 1);
        c.describe("vector of %zu, format %d", v.size(), what); c.mix(v.size()); for (size_t i = 0; i < std::min<size_t>(v.size(), 4); ++i) c.mixd((double)v[i]);
        c.nontrivial = v.size() > 1;
        std::vector<T> w;
        if (what == 0)
        {
            STEP("WriteText");
            int form = r.range(0, 2);
            Vector<T> V(v);
            if (form == 0) WriteText(v, f); else if (form == 1) WriteText(V, f); else { const VectorView<T>& view = V; WriteText(view, f); }
            STEP("ReadText"); w = ReadText<T>(f);
        }
        else { STEP("WriteBinary"); WriteBinary(v, f); STEP("ReadBinaryVect"); w = ReadBinaryVect<T>(f); }
        CHECK(w.size() == v.size(), RT, "%s vector: %zu values read, %zu written", what ? "binary" : "text", w.size(), v.size());
        for (size_t i = 0; i < v.size(); ++i) CHECK(same_bits(w[i], v[i]), RT, "%s vector: value %zu is %.17g, written %.17g", what ? "binary" : "text", i, (double)w[i], (double)v[i]);
        count("vector round trips");
    }
    else
    {
        bool symmetric = what == 5 || what == 6;
        Mat<T> M = gen_mat<T>(c, symmetric);
        c.describe("%dx%d with %zu entries, format %d", M.m, M.n, M.e.size(), what); c.mix(M.m); c.mix(M.n); c.mix(M.e.size()); c.mix(what);
        c.nontrivial = M.e.size() > 1;
        SparseMatrix<T> A = to_csr(r, M);
        const SparseMatrix<T> keep(A);
        Mat<T> tr = trimmed(M);
        switch (what)
        {
            case 2: STEP("WriteBinary(matrix)"); WriteBinary(A, f); STEP("ReadBinaryMat"); same(read_back(ReadBinaryMat<T>(f), M.m, M.n, "binary matrix"), M, "binary matrix"); break;
            case 3: STEP("WriteCSR"); WriteCSR(A, f); STEP("ReadCSR"); same(read_back(ReadCSR<T>(f), M.m, M.n, "CSR file"), M, "CSR file"); break;
            case 4: STEP("WriteMTX"); WriteMTX(A, f); STEP("ReadMTX"); same(read_back(ReadMTX<T>(f), M.m, M.n, "Matrix Market file"), M, "Matrix Market file"); break;
            case 5: STEP("WriteCooList symmetric"); WriteCooList(A, f, true); STEP("ReadCooList symmetric"); same(read_back(ReadCooList<T>(f, true), tr.m, tr.n, "symmetric coordinate file"), tr, "symmetric coordinate file"); break;
            case 6: STEP("WriteAdjList symmetric"); WriteAdjList(A, f, true); STEP("ReadAdjList symmetric"); same(read_back(ReadAdjList<T>(f, true), tr.m, tr.n, "symmetric adjacency file"), ones(tr), "symmetric adjacency file"); break;
            case 7: STEP("WriteAdjList"); WriteAdjList(A, f); STEP("ReadAdjList"); same(read_back(ReadAdjList<T>(f), tr.m, tr.n, "adjacency file"), ones(tr), "adjacency file"); break;
            case 8:
            {
                STEP("WriteTable"); WriteTable(A, f); STEP("ReadTable");
                Mat<T> t = ones(tr); t.m = M.m;
                same(read_back(ReadTable<T>(f), M.m, tr.n, "table file"), t, "table file"); break;
            }
            default: STEP("WriteCooList"); WriteCooList(A, f); STEP("ReadCooList"); same(read_back(ReadCooList<T>(f), tr.m, tr.n, "coordinate file"), tr, "coordinate file"); break;
        }
        CHECK(A.GetIndptr() == keep.GetIndptr() && A.GetIndices() == keep.GetIndices() && A.Rows() == keep.Rows() && A.Cols() == keep.Cols(), RT, "writing changed the matrix");
        for (size_t i = 0; i < A.GetData().size(); ++i) CHECK(same_bits(A.GetData()[i], keep.GetData()[i]), RT, "writing changed value %zu", i);
        count("matrix round trips");
    }
    CHECK(next_fd() == fd0, "io-descriptor", "a file is left open");
}
FAMILY(rt_d, "io.roundtrip.double") { roundtrip<double>(c); }
FAMILY(rt_i, "io.roundtrip.int") { roundtrip<int>(c); }

// files as other programs write them
FAMILY(foreign, "io.foreign")
{
    Rng& r = c.r;
    std::string f = path("foreign"), s;
    int what = r.range(0, 6);
    int n = c.size(1); bool sym = r.chance(1, 2);
    int m = sym ? n : c.size(1);
    auto sp = [&]() { return std::string(r.chance(1, 4) ? r.range(2, 4) : 1, r.chance(1, 4) ? '\t' : ' '); };
    auto nl = [&]() { return std::string(r.chance(1, 8) ? "\n\n" : "\n"); };
    auto num = [&](double v) { char b[64]; std::snprintf(b, sizeof b, r.chance(1, 3) ? "%.17e" : "%.17g", v); return std::string(b); };
    int k = r.range(0, 3 * n);
    Mat<double> W(m, n);
    std::map<std::pair<int, int>, double> mag;
    c.describe("format %d, %dx%d, %d lines%s", what, m, n, k, sym ? ", symmetric" : ""); c.mix(what); c.mix(m); c.mix(n); c.mix(k); c.nontrivial = k > 1;
    auto add = [&](int i, int j, double v) { W.e[std::make_pair(i, j)] += v; mag[std::make_pair(i, j)] += std::fabs(v); };
    SparseMatrix<double> A;
    bool sized = false;
    std::set<std::pair<int, int>> used;
    if (what <= 3)
    {
        bool mtx = what >= 2, list = what == 1 || what == 3;
        std::string body;
        for (int q = 0; q < k; ++q)
        {
            int i = r.range(0, m - 1), j = r.range(0, n - 1);
            if (sym && j < i) std::swap(i, j);
            if (sym && mtx && r.chance(1, 2)) std::swap(i, j); // lower or upper triangle
            double v = list ? 1.0 : gen_val(r, r.range(0, 2));
            add(i, j, v); if (sym && i != j) add(j, i, v);
            body += std::to_string(i + (mtx ? 1 : 0)) + sp() + std::to_string(j + (mtx ? 1 : 0)) + (list ? "" : sp() + num(v)) + (q + 1 == k && r.chance(1, 3) ? "" : nl());
        }
        if (mtx)
        {
            s = std::string("%%MatrixMarket matrix coordinate ") + (list ? "pattern " : "real ") + (sym ? "symmetric" : "general") + "\n";
            for (int q = r.range(0, 3); q > 0; --q) s += "% comment 3 4 5\n";
            s += std::to_string(m) + sp() + std::to_string(n) + sp() + std::to_string(k) + "\n";
            sized = true;
        }
        put(f, s + body);
        STEP(mtx ? (list ? "ReadMTXList" : "ReadMTX") : (list ? "ReadAdjList" : "ReadCooList"));
        A = mtx ? (list ? ReadMTXList<double>(f) : ReadMTX<double>(f)) : (list ? ReadAdjList<double>(f, sym) : ReadCooList<double>(f, sym));
    }
    else if (what == 4)
    {
        // graph laplacian: each edge counted once however it is listed
        for (int q = 0; q < k; ++q)
        {
            int i = r.range(0, n - 1), j = r.range(0, n - 1);
            if (i > j) std::swap(i, j);
            if (used.count(std::make_pair(i, j))) continue;
            used.insert(std::make_pair(i, j));
            s += std::to_string(i) + sp() + std::to_string(j) + nl();
            if (i != j && r.chance(1, 2)) s += std::to_string(j) + sp() + std::to_string(i) + nl();
            if (i != j) { add(i, j, -1); add(j, i, -1); add(i, i, 1); add(j, j, 1); }
        }
        put(f, s); STEP("ReadGraphList"); A = ReadGraphList<double>(f);
    }
    else if (what == 5)
    {
        W.m = m = r.range(0, 12); 
        for (int i = 0; i < m; ++i)
        {
            std::vector<int> cols; for (int j = 0; j < n; ++j) if (r.chance(1, 3)) cols.push_back(j);
            r.shuffle(cols);
            if (r.chance(1, 5)) s += "  ";
            for (size_t q = 0; q < cols.size(); ++q) { s += (q ? sp() : "") + std::to_string(cols[q]); add(i, cols[q], 1); }
            if (r.chance(1, 5)) s += " ";
            if (i + 1 < m || !cols.size() || r.chance(1, 2)) s += "\n";
        }
        put(f, s); STEP("ReadTable"); A = ReadTable<double>(f);
        Mat<double> t = trimmed(W); W.n = t.n; sized = true;
    }
    else
    {
        int nn = r.range(0, 30); std::vector<double> v = gen_vec<double>(r, nn, 3);
        for (double x : v) s += num(x) + (r.chance(1, 2) ? sp() : nl());
        put(f, s); STEP("ReadText");
        std::vector<double> w = ReadText<double>(f);
        CHECK(w == v, RT, "text file of %zu values read as %zu values", v.size(), w.size());
        return;
    }
    if (!sized) { Mat<double> t = trimmed(W); W.m = t.m; W.n = t.n; }
    else W.m = m;
    Mat<double> G = read_back(A, W.m, W.n, "file");
    for (auto& p : W.e) CHECK(G.e.count(p.first) && near(G.e[p.first], p.second, mag[p.first], 16), RT, "entry (%d,%d) is %.17g, the file says %.17g", p.first.first, p.first.second, G.e.count(p.first) ? G.e[p.first] : 0.0, p.second);
    for (auto& p : G.e) CHECK(W.e.count(p.first), RT, "entry (%d,%d) is not in the file", p.first.first, p.first.second);
    count("foreign files read");
}

// ------------------------------------------------------------- damaged files (C18)
const char* DM = "io-damaged";
const char* FORMATS[] = {"text", "binary vector", "binary matrix", "csr", "mtx", "mtx list", "coo", "coo symmetric", "adjacency", "adjacency symmetric", "graph", "table"};
const int NF = 12;

enum Outcome { THREW, RETURNED };
template <typename T>
Outcome read_any(int fmt, const std::string& f)
{
    SparseMatrix<T> A;
    try
    {
        switch (fmt)
        {
            case 0: { std::vector<T> v = ReadText<T>(f); for (T x : v) if (x != x) count("nan read"); return RETURNED; }
            case 1: { std::vector<T> v = ReadBinaryVect<T>(f); volatile T s = 0; for (T x : v) s = x; (void)s; return RETURNED; }
            case 2: A = ReadBinaryMat<T>(f); break;
            case 3: A = ReadCSR<T>(f); break;
            case 4: A = ReadMTX<T>(f); break;
            case 5: A = ReadMTXList<T>(f); break;
            case 6: A = ReadCooList<T>(f); break;
            case 7: A = ReadCooList<T>(f, true); break;
            case 8: A = ReadAdjList<T>(f); break;
            case 9: A = ReadAdjList<T>(f, true); break;
            case 10: A = ReadGraphList<T>(f); break;
            default: A = ReadTable<T>(f); break;
        }
    }
    catch (const CaseFail&) { throw; }
    catch (const std::exception&) { return THREW; }
    CHECK(A.Rows() >= 0 && A.Cols() >= 0, "wf-shape", "%s: shape %dx%d", FORMATS[fmt], A.Rows(), A.Cols());
    // formats that list triplets sum repetitions; the others store what the file stores
    bool dup = fmt == 2 || fmt == 3 || fmt == 11;
    if (A.Rows() == 0 && A.GetIndptr().empty()) { CHECK(A.nnz() == 0, "wf-count", "%s: entries without rows", FORMATS[fmt]); return RETURNED; }
    wellformed(A, A.Rows(), A.Cols(), FORMATS[fmt], dup);
    return RETURNED;
}

FAMILY(missing, "io.missing", 0)
{
    Rng& r = c.r;
    int k = r.range(0, 3);
    std::string f = k == 0 ? path("no-such-file") : k == 1 ? path("no/such/dir/file") : k == 2 ? std::string("") : std::string(300, 'x');
    int fmt = r.range(0, NF - 1); bool i = r.chance(1, 2);
    c.mix(fmt); c.mix(k); c.mix(i); c.nontrivial = true; c.describe("%s reader, path kind %d", FORMATS[fmt], k);
    STEP(FORMATS[fmt]);
    Outcome o = i ? read_any<int>(fmt, f) : read_any<double>(fmt, f);
    CHECK(o == THREW, "io-missing", "%s: reading a file that does not exist returned normally", FORMATS[fmt]);
    // writing where no file can be created
    if (r.chance(1, 2))
    {
        std::string g = path("no/such/dir/out");
        std::vector<double> v(3, 1.0); SparseMatrix<double> A(3);
        bool threw = false; STEP("writer");
        try
        {
            switch (r.range(0, 6))
            {
                case 0: WriteText(v, g); break; case 1: WriteBinary(v, g); break; case 2: WriteBinary(A, g); break; case 3: WriteCSR(A, g); break;
                case 4: WriteMTX(A, g); break; case 5: WriteTable(A, g); break; default: WriteCooList(A, g); break;
            }
        }
        catch (const std::exception&) { threw = true; }
        CHECK(threw, "io-missing", "a writer that could not create its file returned normally");
    }
}

template <typename T>
void make_file(Ctx& c, int fmt, const std::string& f)
{
    Rng& r = c.r;
    bool sq = fmt == 7 || fmt == 9 || fmt == 10;
    Mat<T> M; M.m = c.size(1); M.n = sq ? M.m : c.size(1);
    int k = r.range(0, 20);
    for (int q = 0; q < k; ++q) { int i = r.range(0, M.m - 1), j = r.range(0, M.n - 1); M.e[std::make_pair(i, j)] = (T)r.range(-5, 5); if (sq) M.e[std::make_pair(j, i)] = M.e[std::make_pair(i, j)]; }
    SparseMatrix<T> A = to_csr(r, M);
    std::vector<T> v(r.range(0, 20)); for (T& x : v) x = any_value<T>(r, false);
    switch (fmt)
    {
        case 0: WriteText(v, f); break;
        case 1: WriteBinary(v, f); break;
        case 2: WriteBinary(A, f); break;
        case 3: WriteCSR(A, f); break;
        case 4: WriteMTX(A, f); break;
        case 5: { std::string s = std::string("%%MatrixMarket matrix coordinate pattern ") + (r.chance(1, 2) ? "symmetric" : "general") + "\n" + std::to_string(M.m) + " " + std::to_string(M.n) + " " + std::to_string(M.e.size()) + "\n"; for (auto& p : M.e) s += std::to_string(p.first.first + 1) + " " + std::to_string(p.first.second + 1) + "\n"; put(f, s); break; }
        case 6: WriteCooList(A, f); break;
        case 7: WriteCooList(A, f, true); break;
        case 8: WriteAdjList(A, f); break;
        case 9: WriteAdjList(A, f, true); break;
        case 10: WriteAdjList(A, f); break;
        default: WriteTable(A, f); break;
    }
}
std::string damage(Rng& r, std::string s, int fmt, const char** what)
{
    bool bin = fmt == 1 || fmt == 2;
    int kind = r.range(0, bin ? 5 : 10);
    static const char* texts[] = {"-1", "-2147483648", "2147483647", "2147483646", "2147483648", "4294967296", "9223372036854775807", "99999999999999999999", "-5", "0", "1000000", "1e400", "nan", "x", "", "3.7", "65536", "-0", "0x10", "1 1 1 1 1"};
    static const long long nums[] = {-1, 0, 1, INT_MAX, (long long)INT_MAX + 1, INT_MIN, 1LL << 32, 1LL << 60, 1LL << 61, LLONG_MAX, LLONG_MIN, 5, 1000000, (1LL << 32) + 3};
    if (kind == 0) { *what = "empty"; return ""; }
    if (kind == 1) { *what = "truncated"; return s.substr(0, s.empty() ? 0 : (size_t)(r.next() % s.size())); }
    if (kind == 2) { *what = "bytes changed"; for (int q = r.range(1, 3); q > 0 && !s.empty(); --q) s[r.next() % s.size()] = (char)(bin ? (int)(r.next() & 255) : "0123456789-+.eE \n%xn\0"[r.range(0, 20)]); return s; }
    if (kind == 3)
    {
        if (bin)
        {
            *what = "number replaced";
            bool wide = fmt == 1 || r.chance(2, 3);
            if (wide && s.size() >= 8) { size_t at = fmt == 1 ? 0 : 8 * (size_t)r.range(0, 2); if (at + 8 <= s.size()) { long long v = nums[r.range(0, 13)]; std::memcpy(&s[at], &v, 8); } }
            else if (s.size() >= 28) { size_t at = 24 + 4 * (size_t)(r.next() % ((s.size() - 24) / 4)); int v = (int)nums[r.range(0, 12)]; std::memcpy(&s[at], &v, 4); }
            return s;
        }
        *what = "token replaced";
        std::vector<std::pair<size_t, size_t>> tok;
        for (size_t i = 0; i < s.size();) { while (i < s.size() && isspace((unsigned char)s[i])) ++i; size_t b = i; while (i < s.size() && !isspace((unsigned char)s[i])) ++i; if (i > b) tok.push_back(std::make_pair(b, i - b)); }
        for (int q = r.range(1, 2); q > 0 && !tok.empty(); --q)
        {
            size_t t = r.chance(1, 2) ? std::min<size_t>(tok.size() - 1, (size_t)r.range(0, 8)) : (size_t)(r.next() % tok.size());
            if (q == 1) s.replace(tok[t].first, tok[t].second, texts[r.range(0, 19)]); // one textual replacement keeps offsets valid
        }
        return s;
    }
    if (kind == 4) { *what = "inserted"; std::string g = bin ? std::string(r.range(1, 9), (char)(r.next() & 255)) : std::string(texts[r.range(0, 19)]) + (r.chance(1, 2) ? " " : "\n"); s.insert(s.empty() ? 0 : (size_t)(r.next() % s.size()), g); return s; }
    if (bin)
    {
        // one number becomes another number of the file, or its neighbour
        *what = "number nudged";
        auto get = [&](size_t at, int w) { long long v = 0; int x; if (w == 8) std::memcpy(&v, &s[at], 8); else { std::memcpy(&x, &s[at], 4); v = x; } return v; };
        auto place = [&](size_t* at, int* w) { if (fmt == 1) { *at = 0; *w = 8; return s.size() >= 8; } if (s.size() < 28 || r.chance(1, 2)) { *at = 8 * (size_t)r.range(0, 2); *w = 8; return *at + 8 <= s.size(); } *at = 24 + 4 * (size_t)(r.next() % ((s.size() - 24) / 4)); *w = 4; return true; };
        size_t a, b; int wa, wb;
        if (!place(&a, &wa) || !place(&b, &wb)) return s;
        long long v = (long long)((unsigned long long)get(r.chance(1, 2) ? a : b, wa == wb ? wa : 4) + (unsigned long long)r.range(-1, 1));
        if (wa == 8) std::memcpy(&s[a], &v, 8); else { int x = (int)v; std::memcpy(&s[a], &x, 4); }
        return s;
    }
    if (kind >= 9)
    {
        *what = "number nudged";
        std::vector<std::pair<size_t, size_t>> tok;
        for (size_t i = 0; i < s.size();)
        {
            while (i < s.size() && isspace((unsigned char)s[i])) ++i;
            if (i < s.size() && s[i] == '%') { while (i < s.size() && s[i] != '\n') ++i; continue; }
            size_t b = i; while (i < s.size() && !isspace((unsigned char)s[i])) ++i;
            if (i > b && i - b < 9 && s.find_first_not_of("0123456789", b) >= i) tok.push_back(std::make_pair(b, i - b));
        }
        if (tok.empty()) return s;
        auto pick = [&]() { return r.chance(1, 2) ? tok[std::min<size_t>(tok.size() - 1, (size_t)r.range(0, 3))] : tok[r.next() % tok.size()]; };
        auto a = pick(), b = r.chance(1, 3) ? a : pick();
        s.replace(a.first, a.second, std::to_string(std::stol(s.substr(b.first, b.second)) + r.range(-1, 2)));
        return s;
    }
    // text only
    std::vector<std::string> lines; { std::istringstream in(s); for (std::string l; std::getline(in, l);) lines.push_back(l); }
    if (lines.empty()) { *what = "garbage"; return std::string("garbage \xff\x00 12", 14); }
    size_t at = r.chance(1, 2) ? 0 : (size_t)(r.next() % lines.size());
    if (kind == 5) { *what = "line removed"; lines.erase(lines.begin() + at); }
    if (kind == 6) { *what = "line doubled"; lines.insert(lines.begin() + at, lines[at]); }
    if (kind == 7) { *what = "lines swapped"; std::swap(lines[at], lines[r.next() % lines.size()]); }
    if (kind == 8) { *what = "garbage line"; lines.insert(lines.begin() + at, r.chance(1, 2) ? "% symmetric" : "hello 3 -4"); }
    std::string o; for (auto& l : lines) o += l + "\n";
    return o;
}
// Repeated positions are summed: a sum of values that no int can hold is a property of the values,
// not of the file's structure, and is not judged.
bool sums_overflow(int rd, const std::string& s)
{
    if (rd != 4 && rd != 6 && rd != 7) return false;
    std::istringstream in(s); std::string line; bool sym = rd == 7; int base = 0;
    if (rd == 4) { base = 1; while (std::getline(in, line) && line.size() && line[0] == '%') sym = sym || line.find("symmetric") != std::string::npos; }
    std::map<std::pair<int, int>, long long> sum; int i, j, v;
    auto add = [&](int a, int b) { long long& t = sum[std::make_pair(a, b)]; t += v; return t > INT_MAX || t < INT_MIN; };
    while (in >> i >> j >> v) { if (i < base || j < base) break; if (add(i, j) || (sym && i != j && add(j, i))) return true; }
    return false;
}
template <typename T>
void damaged(Ctx& c)
{
    Rng& r = c.r;
    int fmt = r.range(0, NF - 1);
    std::string f = path("damaged");
    STEP("writing the file");
    make_file<T>(c, fmt, f);
    std::string s = slurp(f);
    const char* what = "";
    int rounds = r.chance(1, 4) ? 2 : 1;
    for (int q = 0; q < rounds; ++q) s = damage(r, s, fmt, &what);
    put(f, s);
    // sometimes read with another format's reader
    int rd = r.chance(1, 10) ? r.range(0, NF - 1) : fmt;
    c.describe("%s file read as %s, %s, %zu bytes", FORMATS[fmt], FORMATS[rd], what, s.size());
    if (std::is_same<T, int>::value && sums_overflow(rd, s)) { count("values whose sums overflow int, not read"); return; }
    c.mix(fmt); c.mix(rd); c.mix(s.size()); c.mix(hash_str(s.c_str())); c.nontrivial = true;
    STEP(FORMATS[rd]);
    int fd0 = next_fd();
    Outcome o = read_any<T>(rd, f);
    count(o == THREW ? "damaged file rejected" : "damaged file read as a valid object");
    CHECK(next_fd() == fd0, "io-descriptor", "a file is left open");
    if (r.chance(1, 60)) { STEP("directory"); read_any<T>(rd, scratch_dir()); }
}
// Formats that state their sizes: a file that ends before the last number cannot be read.
template <typename T>
void cut_short(Ctx& c)
{
    Rng& r = c.r;
    static const int F[] = {1, 2, 3};
    int fmt = F[r.range(0, 2)];
    std::string f = path("short");
    STEP("writing the file"); make_file<T>(c, fmt, f);
    std::string s = slurp(f); size_t keep;
    if (fmt == 3)
    {
        std::vector<size_t> start;
        for (size_t i = 0; i < s.size();) { while (i < s.size() && isspace((unsigned char)s[i])) ++i; if (i < s.size()) start.push_back(i); while (i < s.size() && !isspace((unsigned char)s[i])) ++i; }
        if (start.empty()) return;
        keep = start[r.chance(1, 3) ? start.size() - 1 : r.next() % start.size()];
        while (keep > 0 && r.chance(1, 2) && isspace((unsigned char)s[keep - 1])) --keep;
    }
    else
    {
        if (s.empty()) return;
        keep = r.chance(1, 3) ? s.size() - (size_t)r.range(1, std::min<int>(9, (int)s.size())) : r.next() % s.size();
    }
    c.describe("%s file of %zu bytes cut to %zu", FORMATS[fmt], s.size(), keep);
    c.mix(fmt); c.mix(s.size()); c.mix(keep); c.mix(hash_str(s.c_str())); c.nontrivial = true;
    put(f, s.substr(0, keep));
    STEP(FORMATS[fmt]);
    Outcome o = read_any<T>(fmt, f);
    count("files cut short");
    CHECK(o == THREW, "io-short", "%s: a file cut from %zu to %zu bytes was read without an error", FORMATS[fmt], s.size(), keep);
}
FAMILY(sh_d, "io.short.double") { cut_short<double>(c); }
FAMILY(sh_i, "io.short.int") { cut_short<int>(c); }
FAMILY(dm_d, "io.damaged.double", 0, false) { damaged<double>(c); }
FAMILY(dm_i, "io.damaged.int", 0, false) { damaged<int>(c); }
} // namespace
