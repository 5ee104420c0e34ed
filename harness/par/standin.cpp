// See standin.h. Ranks are threads; every collective is a pair of barriers around an exchange of pointers.
#include "standin.h"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstring>
#include <exception>
#include <map>
#include <mutex>
#include <set>
#include <thread>

namespace
{
struct RankStopped {};

struct World
{
    int n;
    std::mutex mu;
    std::condition_variable cv;
    int arrived, alive;
    long gen;
    bool broken, deadlock;
    std::vector<std::string> tag;
    std::vector<const void*> slot;
    std::vector<uint64_t> rng;
    std::vector<int> error;
    std::vector<std::string> misuse;
    std::vector<std::string> thrown;
    std::vector<std::vector<standin::Call>> calls;
    std::atomic<long> collectives, exchanges, matvecs, live, teams;
};
World* W = nullptr;
thread_local int my_rank = 0;
thread_local int serial_error = 0;

void misuse(const std::string& what)
{
    if (!W) return;
    std::lock_guard<std::mutex> g(W->mu);
    if (W->misuse.size() < 20) W->misuse.push_back("rank " + std::to_string(my_rank) + ": " + what);
}
void record(const std::string& what, double a0 = 0, double a1 = 0, double a2 = 0, double a3 = 0, double a4 = 0, double a5 = 0, double a6 = 0, double a7 = 0)
{
    if (!W) return;
    standin::Call c;
    c.what = what;
    c.a[0] = a0; c.a[1] = a1; c.a[2] = a2; c.a[3] = a3; c.a[4] = a4; c.a[5] = a5; c.a[6] = a6; c.a[7] = a7;
    W->calls[my_rank].push_back(c);
}
uint64_t rnd()
{
    uint64_t z = (W->rng[my_rank] += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    return z ^ (z >> 27);
}
void sync(const std::string& tag)
{
    if (!W || W->n == 1) return;
    uint64_t d = rnd() % 64;
    if (d < 3) std::this_thread::yield();
    else if (d == 3) std::this_thread::sleep_for(std::chrono::microseconds(rnd() % 60));
    std::unique_lock<std::mutex> lk(W->mu);
    if (W->broken) throw RankStopped();
    W->tag[my_rank] = tag;
    long g = W->gen;
    ++W->arrived;
    if (W->arrived == W->n)
    {
        for (int i = 1; i < W->n; ++i)
            if (W->tag[i] != W->tag[0])
            {
                W->misuse.push_back("ranks disagree about a collective: rank 0 is in " + W->tag[0] + ", rank " + std::to_string(i) + " in " + W->tag[i]);
                W->broken = true;
                break;
            }
        W->arrived = 0;
        ++W->gen;
        W->cv.notify_all();
        if (W->broken) throw RankStopped();
        return;
    }
    if (W->arrived >= W->alive)
    {
        W->broken = W->deadlock = true;
        W->cv.notify_all();
        throw RankStopped();
    }
    W->cv.wait(lk, [&] { return W->gen != g || W->broken; });
    if (W->broken && W->gen == g) throw RankStopped();
    if (W->broken) throw RankStopped();
}
int size_of(MPI_Comm c)
{
    if (c == MPI_COMM_SELF) return 1;
    if (c != MPI_COMM_WORLD && c != STANDIN_COMM_REVERSED) { misuse("an invalid communicator was used"); throw RankStopped(); }
    return W ? W->n : 1;
}
int rank_of(MPI_Comm c) { return c == MPI_COMM_SELF ? 0 : c == STANDIN_COMM_REVERSED && W ? W->n - 1 - my_rank : my_rank; }
// posts a pointer, lets f look at everybody's, and leaves when all have looked
template <typename F>
void exchange(MPI_Comm c, const std::string& tag, const void* mine, F f)
{
    int n = size_of(c);
    if (n == 1) { const void* one[1] = {mine}; f(one); return; }
    const std::string on = c == STANDIN_COMM_REVERSED ? " on the duplicate" : "";
    W->slot[my_rank] = mine;
    sync(tag + on + " (enter)");
    std::vector<const void*> seen(W->slot);
    if (c == STANDIN_COMM_REVERSED) std::reverse(seen.begin(), seen.end());
    f(seen.data());
    sync(tag + on + " (leave)");
}
size_t width(MPI_Datatype t)
{
    switch (t) { case MPI_INT: return sizeof(int); case MPI_DOUBLE: return 8; case MPI_CHAR: return 1; case MPI_LONG: case MPI_LONG_LONG: return 8; }
    misuse("an invalid datatype was used");
    return 1;
}
template <typename T> T comb(MPI_Op op, T a, T b) { return op == MPI_SUM ? a + b : op == MPI_PROD ? a * b : op == MPI_MAX ? std::max(a, b) : std::min(a, b); }
void fold(MPI_Datatype t, MPI_Op op, void* into, const void* from, int n)
{
    for (int i = 0; i < n; ++i)
    {
        if (t == MPI_INT) ((int*)into)[i] = comb(op, ((int*)into)[i], ((const int*)from)[i]);
        else if (t == MPI_DOUBLE) ((double*)into)[i] = comb(op, ((double*)into)[i], ((const double*)from)[i]);
        else ((long*)into)[i] = comb(op, ((long*)into)[i], ((const long*)from)[i]);
    }
}
std::string tagged(const char* name, int count, MPI_Datatype t, int extra = 0)
{
    return std::string(name) + "/" + std::to_string(count) + "/" + std::to_string(t) + "/" + std::to_string(extra);
}
} // namespace

// ------------------------------------------------------------------------ MPI
int MPI_Init(int*, char***) { return 0; }
int MPI_Finalize() { return 0; }
int MPI_Initialized(int* f) { *f = 1; return 0; }
int MPI_Comm_rank(MPI_Comm c, int* r) { size_of(c); *r = rank_of(c); return 0; }
int MPI_Comm_size(MPI_Comm c, int* s) { *s = size_of(c); return 0; }
int MPI_Barrier(MPI_Comm c) { if (size_of(c) > 1) sync("MPI_Barrier"); return 0; }
double MPI_Wtime() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
int MPI_Bcast(void* buf, int n, MPI_Datatype t, int root, MPI_Comm c)
{
    if (W) ++W->collectives;
    if (root < 0 || root >= size_of(c)) { misuse("MPI_Bcast: no such root"); throw RankStopped(); }
    std::vector<char> tmp(width(t) * (size_t)n);
    exchange(c, tagged("MPI_Bcast", n, t, root), buf, [&](const void* const* s) { if (!tmp.empty()) std::memcpy(tmp.data(), s[root], tmp.size()); });
    if (!tmp.empty()) std::memcpy(buf, tmp.data(), tmp.size());
    return 0;
}
static int reduce_all(const char* name, const void* send, void* recv, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, int root, int upto, bool exclusive)
{
    if (W) ++W->collectives;
    if (send == MPI_IN_PLACE) send = recv;
    else if (n > 0 && send == recv) misuse(std::string(name) + ": the buffers alias");
    std::vector<char> tmp(width(t) * (size_t)n), all;
    bool any = false;
    const int me = rank_of(c), sz = size_of(c);
    exchange(c, tagged(name, n, t, op * 1000 + root), send, [&](const void* const* s)
    {
        int last = upto < 0 ? sz - 1 : me - (exclusive ? 1 : 0);
        for (int k = 0; k <= last; ++k)
        {
            if (!any) { if (!tmp.empty()) std::memcpy(tmp.data(), s[k], tmp.size()); any = true; }
            else fold(t, op, tmp.data(), s[k], n);
        }
    });
    if (any && (root < 0 || root == me) && !tmp.empty()) std::memcpy(recv, tmp.data(), tmp.size());
    return 0;
}
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduce_all("MPI_Allreduce", s, r, n, t, op, c, -1, -1, false); }
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { return reduce_all("MPI_Reduce", s, r, n, t, op, c, root, -1, false); }
int MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduce_all("MPI_Scan", s, r, n, t, op, c, -1, 0, false); }
int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduce_all("MPI_Exscan", s, r, n, t, op, c, -1, 0, true); }
int MPI_Allgather(const void* s, int ns, MPI_Datatype st, void* r, int nr, MPI_Datatype rt, MPI_Comm c)
{
    if (W) ++W->collectives;
    size_t b = width(st) * (size_t)ns;
    if (b != width(rt) * (size_t)nr) misuse("MPI_Allgather: counts differ");
    std::vector<char> tmp(b * size_of(c));
    exchange(c, tagged("MPI_Allgather", ns, st), s, [&](const void* const* p) { for (int k = 0; k < size_of(c); ++k) if (b) std::memcpy(tmp.data() + k * b, p[k], b); });
    if (!tmp.empty()) std::memcpy(r, tmp.data(), tmp.size());
    return 0;
}

// ------------------------------------------------------------------ utilities
void* hypre_CAlloc(size_t n, size_t e) { return n * e > 0 ? std::calloc(n, e) : nullptr; }
void hypre_Free(void* p) { if (p) std::free(p); }
int* standin_error_flag() { return W ? &W->error[my_rank] : &serial_error; }
void standin_error_in_arg(int k) { *standin_error_flag() |= 4 | (k << 3); }
HYPRE_Int hypre_BinarySearch(HYPRE_Int* list, HYPRE_Int value, HYPRE_Int n)
{
    HYPRE_Int lo = 0, hi = n - 1;
    while (lo <= hi)
    {
        HYPRE_Int m = (lo + hi) / 2;
        if (value < list[m]) hi = m - 1;
        else if (value > list[m]) lo = m + 1;
        else return m;
    }
    return -1;
}
template <typename T> static T* fresh() { if (W) ++W->live; return (T*)std::calloc(1, sizeof(T)); }
static void gone(void* p) { if (W) --W->live; std::free(p); }

hypre_CSRMatrix* hypre_CSRMatrixCreate(HYPRE_Int rows, HYPRE_Int cols, HYPRE_Int nnz)
{
    hypre_CSRMatrix* m = hypre_CTAlloc(hypre_CSRMatrix, 1);
    m->num_rows = rows; m->num_cols = cols; m->num_nonzeros = nnz; m->owns_data = 1; m->num_rownnz = rows;
    return m;
}
HYPRE_Int hypre_CSRMatrixInitialize(hypre_CSRMatrix* m)
{
    if (!m->data && m->num_nonzeros) m->data = hypre_CTAlloc(HYPRE_Complex, m->num_nonzeros);
    if (!m->i) m->i = hypre_CTAlloc(HYPRE_Int, m->num_rows + 1);
    if (!m->j && m->num_nonzeros) m->j = hypre_CTAlloc(HYPRE_Int, m->num_nonzeros);
    return 0;
}
HYPRE_Int hypre_CSRMatrixDestroy(hypre_CSRMatrix* m)
{
    if (!m) return 0;
    hypre_TFree(m->i);
    if (m->rownnz) hypre_TFree(m->rownnz);
    if (m->owns_data) { hypre_TFree(m->data); hypre_TFree(m->j); }
    std::free(m);
    return 0;
}
HYPRE_Int hypre_CSRMatrixSetRownnz(hypre_CSRMatrix* m)
{
    HYPRE_Int k = 0;
    for (HYPRE_Int i = 0; i < m->num_rows; ++i) if (m->i[i + 1] > m->i[i]) ++k;
    m->num_rownnz = k;
    if (k == 0 || k == m->num_rows) { m->rownnz = nullptr; return 0; }
    m->rownnz = hypre_CTAlloc(HYPRE_Int, k);
    k = 0;
    for (HYPRE_Int i = 0; i < m->num_rows; ++i) if (m->i[i + 1] > m->i[i]) m->rownnz[k++] = i;
    return 0;
}
HYPRE_Int hypre_CSRMatrixReorder(hypre_CSRMatrix* A)
{
    if (A->num_rows != A->num_cols) return -1;
    for (HYPRE_Int i = 0; i < A->num_rows; ++i)
    {
        HYPRE_Int b = A->i[i], n = A->i[i + 1] - b;
        for (HYPRE_Int j = 0; j < n; ++j)
        {
            if (A->j[b + j] == i)
            {
                if (j) { std::swap(A->j[b], A->j[b + j]); std::swap(A->data[b], A->data[b + j]); }
                break;
            }
            if (j == n - 1) return -2;
        }
    }
    return 0;
}

hypre_ParVector* hypre_ParVectorCreate(MPI_Comm comm, HYPRE_Int global_size, HYPRE_Int* part)
{
    if (global_size < 0) { misuse("hypre_ParVectorCreate: negative size"); throw RankStopped(); }
    int n = size_of(comm), r = rank_of(comm);
    hypre_ParVector* v = fresh<hypre_ParVector>();
    if (!part)
    {
        misuse("hypre_ParVectorCreate: no partition");
        part = hypre_CTAlloc(HYPRE_Int, 2);
        part[0] = (HYPRE_Int)((long)global_size * r / n); part[1] = (HYPRE_Int)((long)global_size * (r + 1) / n);
    }
    if (part[0] < 0 || part[1] < part[0] || part[1] > global_size) misuse("hypre_ParVectorCreate: partition [" + std::to_string(part[0]) + "," + std::to_string(part[1]) + ") of " + std::to_string(global_size));
    v->comm = comm; v->global_size = global_size; v->first_index = part[0]; v->last_index = part[1] - 1;
    v->partitioning = part; v->owns_data = 1; v->owns_partitioning = 1;
    v->local_vector = hypre_CTAlloc(hypre_Vector, 1);
    v->local_vector->size = part[1] - part[0]; v->local_vector->owns_data = 1; v->local_vector->num_vectors = 1; v->local_vector->vecstride = -1;
    return v;
}
HYPRE_Int hypre_ParVectorInitialize(hypre_ParVector* v)
{
    hypre_Vector* l = v->local_vector;
    if (!l->data) l->data = hypre_CTAlloc(HYPRE_Complex, l->size);
    l->vecstride = l->size; l->idxstride = 1;
    return 0;
}
HYPRE_Int hypre_ParVectorDestroy(hypre_ParVector* v)
{
    if (!v) return 0;
    if (v->owns_data) { if (v->local_vector->owns_data) hypre_TFree(v->local_vector->data); std::free(v->local_vector); }
    if (v->owns_partitioning) hypre_Free(v->partitioning);
    gone(v);
    return 0;
}
HYPRE_Int hypre_ParVectorSetDataOwner(hypre_ParVector* v, HYPRE_Int o) { v->owns_data = o; return 0; }
HYPRE_Int hypre_ParVectorSetPartitioningOwner(hypre_ParVector* v, HYPRE_Int o) { v->owns_partitioning = o; return 0; }

hypre_ParCSRMatrix* hypre_ParCSRMatrixCreate(MPI_Comm comm, HYPRE_Int gr, HYPRE_Int gc, HYPRE_Int* rs, HYPRE_Int* cs, HYPRE_Int nco, HYPRE_Int nd, HYPRE_Int no)
{
    size_of(comm);
    hypre_ParCSRMatrix* A = fresh<hypre_ParCSRMatrix>();
    A->comm = comm; A->global_num_rows = gr; A->global_num_cols = gc;
    A->first_row_index = rs[0]; A->last_row_index = rs[1] - 1; A->first_col_diag = cs[0]; A->last_col_diag = cs[1] - 1;
    A->diag = hypre_CSRMatrixCreate(rs[1] - rs[0], cs[1] - cs[0], nd);
    A->offd = hypre_CSRMatrixCreate(rs[1] - rs[0], nco, no);
    A->row_starts = rs; A->col_starts = cs;
    A->owns_data = 1; A->owns_row_starts = 1; A->owns_col_starts = 1;
    if (rs == cs) A->owns_col_starts = 0;
    return A;
}
HYPRE_Int hypre_ParCSRMatrixDestroy(hypre_ParCSRMatrix* A)
{
    if (!A) return 0;
    if (A->owns_data)
    {
        hypre_CSRMatrixDestroy(A->diag);
        hypre_CSRMatrixDestroy(A->offd);
        if (A->col_map_offd) hypre_Free(A->col_map_offd);
        if (A->comm_pkg) hypre_MatvecCommPkgDestroy(A->comm_pkg);
    }
    if (A->owns_row_starts) hypre_Free(A->row_starts);
    if (A->owns_col_starts) hypre_Free(A->col_starts);
    gone(A);
    return 0;
}
HYPRE_Int hypre_ParCSRMatrixSetNumNonzeros(hypre_ParCSRMatrix* A)
{
    int local = A->diag->i[A->diag->num_rows] + A->offd->i[A->offd->num_rows], total = 0;
    MPI_Allreduce(&local, &total, 1, MPI_INT, MPI_SUM, A->comm);
    A->num_nonzeros = total;
    return 0;
}

namespace
{
struct Post { hypre_ParCSRMatrix* A; };
// structural requirements HYPRE places on a matrix
void inspect(hypre_ParCSRMatrix* A, const char* who)
{
    auto walk = [&](hypre_CSRMatrix* M, const char* name)
    {
        if (!M->i) { misuse(std::string(who) + ": " + name + " has no row pointers"); throw RankStopped(); }
        if (M->i[0] != 0) misuse(std::string(who) + ": row pointers of " + name + " do not start at 0");
        for (int r = 0; r < M->num_rows; ++r)
        {
            if (M->i[r + 1] < M->i[r]) { misuse(std::string(who) + ": row pointers of " + name + " decrease"); throw RankStopped(); }
            for (int k = M->i[r]; k < M->i[r + 1]; ++k)
                if (M->j[k] < 0 || M->j[k] >= M->num_cols) { misuse(std::string(who) + ": column " + std::to_string(M->j[k]) + " of " + std::to_string(M->num_cols) + " in " + name); throw RankStopped(); }
        }
        if (M->i[M->num_rows] != M->num_nonzeros) misuse(std::string(who) + ": " + name + " declared with " + std::to_string(M->num_nonzeros) + " entries, holds " + std::to_string(M->i[M->num_rows]));
    };
    walk(A->diag, "diag");
    walk(A->offd, "offd");
    for (int k = 0; k < A->offd->num_cols; ++k)
    {
        int g = A->col_map_offd[k];
        if (g < 0 || g >= A->global_num_cols || (g >= A->first_col_diag && g <= A->last_col_diag)) misuse(std::string(who) + ": column map entry " + std::to_string(g));
        if (k && A->col_map_offd[k - 1] >= g) misuse(std::string(who) + ": the column map is not increasing");
    }
}
}

HYPRE_Int hypre_MatvecCommPkgCreate(hypre_ParCSRMatrix* A)
{
    inspect(A, "hypre_MatvecCommPkgCreate");
    int n = size_of(A->comm), me = rank_of(A->comm);
    hypre_ParCSRCommPkg* p = fresh<hypre_ParCSRCommPkg>();
    p->comm = A->comm;
    if (W) ++W->exchanges;
    std::vector<int> rp, rv(1, 0), sp, sm(1, 0), se;
    exchange(A->comm, "hypre_MatvecCommPkgCreate/" + std::to_string(A->global_num_rows) + "x" + std::to_string(A->global_num_cols), A, [&](const void* const* s)
    {
        auto at = [&](int k) { return (const hypre_ParCSRMatrix*)s[k]; };
        int expect = 0;
        for (int k = 0; k < n; ++k)
        {
            if (at(k)->first_col_diag != expect && me == 0) misuse("the column ranges of the ranks do not follow each other");
            expect = at(k)->last_col_diag + 1;
        }
        if (expect != A->global_num_cols && me == 0) misuse("the column ranges do not add up to the global size");
        for (int k = 0; k < n; ++k)
        {
            if (k == me) continue;
            int got = 0;
            for (int c = 0; c < A->offd->num_cols; ++c) if (A->col_map_offd[c] >= at(k)->first_col_diag && A->col_map_offd[c] <= at(k)->last_col_diag) ++got;
            if (got) { rp.push_back(k); rv.push_back(rv.back() + got); }
            int give = 0;
            for (int c = 0; c < at(k)->offd->num_cols; ++c)
            {
                int g = at(k)->col_map_offd[c];
                if (g >= A->first_col_diag && g <= A->last_col_diag) { se.push_back(g - A->first_col_diag); ++give; }
            }
            if (give) { sp.push_back(k); sm.push_back(sm.back() + give); }
        }
    });
    auto keep = [](const std::vector<int>& v) { HYPRE_Int* q = hypre_CTAlloc(HYPRE_Int, v.size()); std::copy(v.begin(), v.end(), q); return q; };
    p->num_recvs = (int)rp.size(); p->recv_procs = keep(rp); p->recv_vec_starts = keep(rv);
    p->num_sends = (int)sp.size(); p->send_procs = keep(sp); p->send_map_starts = keep(sm); p->send_map_elmts = keep(se);
    A->comm_pkg = p;
    return 0;
}
HYPRE_Int hypre_MatvecCommPkgDestroy(hypre_ParCSRCommPkg* p)
{
    if (!p) return 0;
    hypre_Free(p->send_procs); hypre_Free(p->send_map_starts); hypre_Free(p->send_map_elmts); hypre_Free(p->recv_procs); hypre_Free(p->recv_vec_starts);
    gone(p);
    return 0;
}
hypre_ParCSRCommHandle* hypre_ParCSRCommHandleCreate(HYPRE_Int job, hypre_ParCSRCommPkg* p, void* send, void* recv)
{
    if (job != 1 && job != 2 && job != 11 && job != 12) misuse("communication job " + std::to_string(job));
    hypre_ParCSRCommHandle* h = fresh<hypre_ParCSRCommHandle>();
    h->comm_pkg = p; h->send_data = send; h->recv_data = recv; h->job = job;
    return h;
}
// MPI may deliver any time between the two calls: the latest moment is the least convenient one
HYPRE_Int hypre_ParCSRCommHandleDestroy(hypre_ParCSRCommHandle* h)
{
    if (!h) return 0;
    hypre_ParCSRCommPkg* p = h->comm_pkg;
    if (W) ++W->exchanges;
    const bool fwd = h->job == 1 || h->job == 11;
    const size_t w = h->job >= 11 ? sizeof(HYPRE_Int) : sizeof(HYPRE_Complex);
    const int me = rank_of(p->comm);
    exchange(p->comm, "hypre_ParCSRCommHandle/" + std::to_string(h->job), h, [&](const void* const* s)
    {
        int nin = fwd ? p->num_recvs : p->num_sends;
        const int* procs = fwd ? p->recv_procs : p->send_procs;
        const int* starts = fwd ? p->recv_vec_starts : p->send_map_starts;
        for (int i = 0; i < nin; ++i)
        {
            const hypre_ParCSRCommHandle* o = (const hypre_ParCSRCommHandle*)s[procs[i]];
            const hypre_ParCSRCommPkg* q = o->comm_pkg;
            int nout = fwd ? q->num_sends : q->num_recvs;
            const int* oprocs = fwd ? q->send_procs : q->recv_procs;
            const int* ostarts = fwd ? q->send_map_starts : q->recv_vec_starts;
            int k = 0;
            while (k < nout && oprocs[k] != me) ++k;
            if (k == nout) { misuse("a message is awaited from rank " + std::to_string(procs[i]) + " which sends none"); continue; }
            int want = starts[i + 1] - starts[i], got = ostarts[k + 1] - ostarts[k];
            if (want != got) { misuse("message of " + std::to_string(got) + " items where " + std::to_string(want) + " are awaited"); continue; }
            if (got > 0) std::memcpy((char*)h->recv_data + w * starts[i], (const char*)o->send_data + w * ostarts[k], w * (size_t)got);
        }
    });
    gone(h);
    return 0;
}
static void sizes(const char* who, hypre_ParVector* v, int local, int global)
{
    if (!v) { misuse(std::string(who) + ": no vector"); throw RankStopped(); }
    if (!v->local_vector->data && local > 0) { misuse(std::string(who) + ": vector without data"); throw RankStopped(); }
    if (v->local_vector->vecstride < 0) misuse(std::string(who) + ": the vector was never initialised");
    if (v->local_vector->size != local || v->global_size != global)
        misuse(std::string(who) + ": vector of local size " + std::to_string(v->local_vector->size) + " (global " + std::to_string(v->global_size) + ") where the matrix needs " + std::to_string(local) + " (global " + std::to_string(global) + ")");
}
HYPRE_Int hypre_ParCSRMatrixMatvec(HYPRE_Complex alpha, hypre_ParCSRMatrix* A, hypre_ParVector* x, HYPRE_Complex beta, hypre_ParVector* y)
{
    if (!A) { misuse("hypre_ParCSRMatrixMatvec: no matrix"); throw RankStopped(); }
    if (W) ++W->matvecs;
    sizes("hypre_ParCSRMatrixMatvec (input)", x, A->diag->num_cols, A->global_num_cols);
    sizes("hypre_ParCSRMatrixMatvec (output)", y, A->diag->num_rows, A->global_num_rows);
    if (!A->comm_pkg) hypre_MatvecCommPkgCreate(A);
    hypre_ParCSRCommPkg* p = A->comm_pkg;
    const double* xd = x->local_vector->data;
    double* yd = y->local_vector->data;
    std::vector<double> out(p->send_map_starts[p->num_sends]), in(A->offd->num_cols);
    for (size_t k = 0; k < out.size(); ++k) out[k] = xd[p->send_map_elmts[k]];
    hypre_ParCSRCommHandleDestroy(hypre_ParCSRCommHandleCreate(1, p, out.data(), in.data()));
    for (int i = 0; i < A->diag->num_rows; ++i)
    {
        double s = 0;
        for (int k = A->diag->i[i]; k < A->diag->i[i + 1]; ++k) s += A->diag->data[k] * xd[A->diag->j[k]];
        for (int k = A->offd->i[i]; k < A->offd->i[i + 1]; ++k) s += A->offd->data[k] * in[A->offd->j[k]];
        yd[i] = alpha * s + (beta == 0 ? 0.0 : beta * yd[i]);
    }
    return 0;
}
HYPRE_Int hypre_ParCSRMatrixMatvecT(HYPRE_Complex alpha, hypre_ParCSRMatrix* A, hypre_ParVector* x, HYPRE_Complex beta, hypre_ParVector* y)
{
    if (!A) { misuse("hypre_ParCSRMatrixMatvecT: no matrix"); throw RankStopped(); }
    if (W) ++W->matvecs;
    sizes("hypre_ParCSRMatrixMatvecT (input)", x, A->diag->num_rows, A->global_num_rows);
    sizes("hypre_ParCSRMatrixMatvecT (output)", y, A->diag->num_cols, A->global_num_cols);
    if (!A->comm_pkg) hypre_MatvecCommPkgCreate(A);
    hypre_ParCSRCommPkg* p = A->comm_pkg;
    const double* xd = x->local_vector->data;
    double* yd = y->local_vector->data;
    std::vector<double> out(A->offd->num_cols, 0.0), in(p->send_map_starts[p->num_sends]), s(A->diag->num_cols, 0.0);
    for (int i = 0; i < A->diag->num_rows; ++i)
    {
        for (int k = A->diag->i[i]; k < A->diag->i[i + 1]; ++k) s[A->diag->j[k]] += A->diag->data[k] * xd[i];
        for (int k = A->offd->i[i]; k < A->offd->i[i + 1]; ++k) out[A->offd->j[k]] += A->offd->data[k] * xd[i];
    }
    hypre_ParCSRCommHandleDestroy(hypre_ParCSRCommHandleCreate(2, p, out.data(), in.data()));
    for (size_t k = 0; k < in.size(); ++k) s[p->send_map_elmts[k]] += in[k];
    for (size_t j = 0; j < s.size(); ++j) yd[j] = alpha * s[j] + (beta == 0 ? 0.0 : beta * yd[j]);
    return 0;
}
hypre_CSRMatrix* hypre_ParCSRMatrixExtractBExt(hypre_ParCSRMatrix* B, hypre_ParCSRMatrix* A, HYPRE_Int data)
{
    if (W) ++W->exchanges;
    const int n = size_of(A->comm);
    std::vector<int> ptr(1, 0), ind;
    std::vector<double> dat;
    exchange(A->comm, "hypre_ParCSRMatrixExtractBExt", B, [&](const void* const* s)
    {
        for (int k = 0; k < A->offd->num_cols; ++k)
        {
            int g = A->col_map_offd[k];
            for (int q = 0; q < n; ++q)
            {
                const hypre_ParCSRMatrix* R = (const hypre_ParCSRMatrix*)s[q];
                if (g < R->first_row_index || g > R->last_row_index) continue;
                int l = g - R->first_row_index;
                for (int t = R->diag->i[l]; t < R->diag->i[l + 1]; ++t) { ind.push_back(R->diag->j[t] + R->first_col_diag); dat.push_back(R->diag->data[t]); }
                for (int t = R->offd->i[l]; t < R->offd->i[l + 1]; ++t) { ind.push_back(R->col_map_offd[R->offd->j[t]]); dat.push_back(R->offd->data[t]); }
            }
            ptr.push_back((int)ind.size());
        }
    });
    hypre_CSRMatrix* M = hypre_CSRMatrixCreate(A->offd->num_cols, B->global_num_cols, (int)ind.size());
    hypre_CSRMatrixInitialize(M);
    std::copy(ptr.begin(), ptr.end(), M->i);
    std::copy(ind.begin(), ind.end(), M->j);
    if (data) std::copy(dat.begin(), dat.end(), M->data);
    return M;
}

// -------------------------------------------------------------------- solvers
struct hypre_Solver_struct
{
    int magic;              // kind while alive
    int max_iter, sweeps, sym, reuse, levels;
    double tol, thresh, filter, loadbal;
    bool ready;             // set up
    int rows;
    double* dinv;
    int print;              // verbosity, logging
    double made[16];        // the last value of every setting
    HYPRE_PtrToParSolverFcn precond, precond_setup;
    HYPRE_Solver precond_solver;
    // eigensolver
    HYPRE_MatvecFunctions* mv;
    void* op;
    HYPRE_PtrToSolverFcn eprecond;
};
namespace
{
enum { AMG = 0x0a396001, SAILS = 0x0a396002, PCG = 0x0a396003, EIGEN = 0x0a396004 };
double made(HYPRE_Solver s) { double t = 0; for (int i = 0; i < 16; ++i) t += (1.0 + 1.37 * i) * s->made[i]; return t; }
bool alive(HYPRE_Solver s, int kind, const char* who)
{
    if (!s) { misuse(std::string(who) + " on a null solver"); return false; }
    if (s->magic != kind) { misuse(std::string(who) + " on something that is not such a solver"); return false; }
    return true;
}
HYPRE_Solver create(int kind) { HYPRE_Solver s = fresh<hypre_Solver_struct>(); s->magic = kind; s->max_iter = kind == AMG ? 20 : 1000; s->tol = kind == AMG ? 1e-7 : 1e-6; s->sweeps = 1; return s; }
HYPRE_Int destroy(HYPRE_Solver s, int kind, const char* who)
{
    if (!alive(s, kind, who)) return 1;
    hypre_Free(s->dinv);
    s->magic = 0;
    gone(s);
    return 0;
}
double dot(MPI_Comm c, const std::vector<double>& a, const std::vector<double>& b)
{
    double l = 0, g = 0;
    for (size_t i = 0; i < a.size(); ++i) l += a[i] * b[i];
    MPI_Allreduce(&l, &g, 1, MPI_DOUBLE, MPI_SUM, c);
    return g;
}
// a parallel vector over the rows of A holding (a view of) d
struct Holder
{
    hypre_ParVector* v;
    Holder(hypre_ParCSRMatrix* A, double* d)
    {
        v = hypre_ParVectorCreate(A->comm, A->global_num_rows, A->row_starts);
        v->owns_partitioning = 0;
        v->local_vector->owns_data = 0;
        v->local_vector->vecstride = v->local_vector->size;
        v->local_vector->data = d;
    }
    ~Holder() { hypre_ParVectorDestroy(v); }
    Holder(const Holder&) = delete;
};
void apply(hypre_ParCSRMatrix* A, std::vector<double>& x, std::vector<double>& y)
{
    double dummy = 0;
    Holder hx(A, x.empty() ? &dummy : x.data()), hy(A, y.empty() ? &dummy : y.data());
    hypre_ParCSRMatrixMatvec(1.0, A, hx.v, 0.0, hy.v);
}
// a callback of the library reports an error by a nonzero value
void okay(const char* who, HYPRE_Int code) { if (code) misuse(std::string(who) + " reports error " + std::to_string(code)); }
void square(const char* who, hypre_ParCSRMatrix* A, hypre_ParVector* b, hypre_ParVector* x, bool data)
{
    if (!A) { misuse(std::string(who) + ": no matrix"); throw RankStopped(); }
    if (!b || !x) { misuse(std::string(who) + ": no vector"); throw RankStopped(); }
    if (data) { sizes(who, b, A->diag->num_rows, A->global_num_rows); sizes(who, x, A->diag->num_cols, A->global_num_cols); }
}
}
HYPRE_Int HYPRE_BoomerAMGCreate(HYPRE_Solver* s) { *s = create(AMG); return 0; }
HYPRE_Int HYPRE_BoomerAMGDestroy(HYPRE_Solver s) { return destroy(s, AMG, "HYPRE_BoomerAMGDestroy"); }
#define AMG_SET(NAME, TYPE, WHAT) \
    HYPRE_Int HYPRE_BoomerAMGSet##NAME(HYPRE_Solver s, TYPE v) { if (!alive(s, AMG, "HYPRE_BoomerAMGSet" #NAME)) return 1; record("amg." #NAME, v); s->made[__LINE__ % 16] = v; WHAT; return 0; }
AMG_SET(CoarsenType, HYPRE_Int, )
AMG_SET(AggNumLevels, HYPRE_Int, )
AMG_SET(RelaxType, HYPRE_Int, )
AMG_SET(NumSweeps, HYPRE_Int, s->sweeps = v)
AMG_SET(StrongThreshold, HYPRE_Real, )
AMG_SET(InterpType, HYPRE_Int, )
AMG_SET(PMaxElmts, HYPRE_Int, )
AMG_SET(MaxLevels, HYPRE_Int, )
AMG_SET(PrintLevel, HYPRE_Int, s->print = v)
AMG_SET(MaxIter, HYPRE_Int, s->max_iter = v)
AMG_SET(Tol, HYPRE_Real, s->tol = v)
HYPRE_Int HYPRE_BoomerAMGSetup(HYPRE_Solver s, HYPRE_ParCSRMatrix A, HYPRE_ParVector b, HYPRE_ParVector x)
{
    if (!alive(s, AMG, "HYPRE_BoomerAMGSetup")) return 1;
    square("HYPRE_BoomerAMGSetup", A, b, x, false);
    record("amg.Setup", A->global_num_rows, s->max_iter, s->tol, s->print, made(s));
    s->ready = true; s->rows = A->diag->num_rows;
    return 0;
}
HYPRE_Int HYPRE_BoomerAMGSolve(HYPRE_Solver s, HYPRE_ParCSRMatrix A, HYPRE_ParVector b, HYPRE_ParVector x)
{
    if (!alive(s, AMG, "HYPRE_BoomerAMGSolve")) return 1;
    if (!s->ready) { misuse("HYPRE_BoomerAMGSolve before HYPRE_BoomerAMGSetup"); return 1; }
    square("HYPRE_BoomerAMGSolve", A, b, x, true);
    record("amg.Solve", s->max_iter, s->tol, s->print, made(s));
    const int n = A->diag->num_rows;
    std::vector<double> xs(x->local_vector->data, x->local_vector->data + n), bs(b->local_vector->data, b->local_vector->data + n), r(n);
    double bn = std::sqrt(dot(A->comm, bs, bs));
    for (int it = 0; it < s->max_iter * s->sweeps; ++it)
    {
        apply(A, xs, r);
        for (int i = 0; i < n; ++i) r[i] = bs[i] - r[i];
        if (s->tol > 0 && std::sqrt(dot(A->comm, r, r)) <= s->tol * bn) break;
        for (int i = 0; i < n; ++i)
        {
            double l1 = 0;
            for (int k = A->diag->i[i]; k < A->diag->i[i + 1]; ++k) l1 += std::fabs(A->diag->data[k]);
            for (int k = A->offd->i[i]; k < A->offd->i[i + 1]; ++k) l1 += std::fabs(A->offd->data[k]);
            if (l1 > 0) xs[i] += r[i] / l1;
        }
    }
    std::copy(xs.begin(), xs.end(), x->local_vector->data);
    return 0;
}

HYPRE_Int HYPRE_ParaSailsCreate(MPI_Comm c, HYPRE_Solver* s) { size_of(c); *s = create(SAILS); return 0; }
HYPRE_Int HYPRE_ParaSailsDestroy(HYPRE_Solver s) { return destroy(s, SAILS, "HYPRE_ParaSailsDestroy"); }
HYPRE_Int HYPRE_ParaSailsSetParams(HYPRE_Solver s, HYPRE_Real t, HYPRE_Int l) { if (!alive(s, SAILS, "HYPRE_ParaSailsSetParams")) return 1; s->thresh = t; s->levels = l; record("sails.Params", t, l); return 0; }
HYPRE_Int HYPRE_ParaSailsSetFilter(HYPRE_Solver s, HYPRE_Real f) { if (!alive(s, SAILS, "HYPRE_ParaSailsSetFilter")) return 1; s->filter = f; record("sails.Filter", f); return 0; }
HYPRE_Int HYPRE_ParaSailsSetSym(HYPRE_Solver s, HYPRE_Int v) { if (!alive(s, SAILS, "HYPRE_ParaSailsSetSym")) return 1; s->sym = v; record("sails.Sym", v); return 0; }
HYPRE_Int HYPRE_ParaSailsSetLoadbal(HYPRE_Solver s, HYPRE_Real v) { if (!alive(s, SAILS, "HYPRE_ParaSailsSetLoadbal")) return 1; s->loadbal = v; record("sails.Loadbal", v); return 0; }
HYPRE_Int HYPRE_ParaSailsSetReuse(HYPRE_Solver s, HYPRE_Int v) { if (!alive(s, SAILS, "HYPRE_ParaSailsSetReuse")) return 1; s->reuse = v; record("sails.Reuse", v); return 0; }
HYPRE_Int HYPRE_ParaSailsSetLogging(HYPRE_Solver s, HYPRE_Int v) { if (!alive(s, SAILS, "HYPRE_ParaSailsSetLogging")) return 1; record("sails.Logging", v); s->print = v; return 0; }
HYPRE_Int HYPRE_ParaSailsSetup(HYPRE_Solver s, HYPRE_ParCSRMatrix A, HYPRE_ParVector b, HYPRE_ParVector x)
{
    if (!alive(s, SAILS, "HYPRE_ParaSailsSetup")) return 1;
    square("HYPRE_ParaSailsSetup", A, b, x, false);
    record("sails.Setup", A->global_num_rows, s->thresh, s->filter, s->levels, s->sym, s->loadbal, s->reuse, s->print);
    hypre_Free(s->dinv);
    s->rows = A->diag->num_rows;
    s->dinv = hypre_CTAlloc(double, s->rows + 1);
    for (int i = 0; i < s->rows; ++i)
    {
        s->dinv[i] = 1.0;
        for (int k = A->diag->i[i]; k < A->diag->i[i + 1]; ++k) if (A->diag->j[k] == i && A->diag->data[k] != 0) s->dinv[i] = (1.0 - 0.01 * s->filter) / A->diag->data[k];
    }
    s->ready = true;
    return 0;
}
HYPRE_Int HYPRE_ParaSailsSolve(HYPRE_Solver s, HYPRE_ParCSRMatrix A, HYPRE_ParVector b, HYPRE_ParVector x)
{
    if (!alive(s, SAILS, "HYPRE_ParaSailsSolve")) return 1;
    if (!s->ready) { misuse("HYPRE_ParaSailsSolve before HYPRE_ParaSailsSetup"); return 1; }
    square("HYPRE_ParaSailsSolve", A, b, x, true);
    if (A->diag->num_rows != s->rows) { misuse("HYPRE_ParaSailsSolve with a matrix of another size"); return 1; }
    record("sails.Solve");
    MPI_Barrier(A->comm);
    for (int i = 0; i < s->rows; ++i) x->local_vector->data[i] = s->dinv[i] * b->local_vector->data[i];
    return 0;
}

HYPRE_Int HYPRE_ParCSRDiagScaleSetup(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector) { record("diag.Setup"); return 0; }
HYPRE_Int HYPRE_ParCSRDiagScale(HYPRE_Solver, HYPRE_ParCSRMatrix A, HYPRE_ParVector y, HYPRE_ParVector x)
{
    square("HYPRE_ParCSRDiagScale", A, y, x, true);
    record("diag.Solve");
    // HYPRE takes the first stored entry of each row, which it put there in hypre_CSRMatrixReorder
    for (int i = 0; i < A->diag->num_rows; ++i) x->local_vector->data[i] = y->local_vector->data[i] / A->diag->data[A->diag->i[i]];
    return 0;
}

HYPRE_Int HYPRE_ParCSRPCGCreate(MPI_Comm, HYPRE_Solver* s) { *s = create(PCG); return 0; }
HYPRE_Int HYPRE_ParCSRPCGDestroy(HYPRE_Solver s) { return s ? destroy(s, PCG, "HYPRE_ParCSRPCGDestroy") : 0; }
HYPRE_Int HYPRE_PCGSetTol(HYPRE_Solver s, HYPRE_Real v) { if (!alive(s, PCG, "HYPRE_PCGSetTol")) return 1; s->tol = v; record("pcg.Tol", v); return 0; }
HYPRE_Int HYPRE_PCGSetMaxIter(HYPRE_Solver s, HYPRE_Int v) { if (!alive(s, PCG, "HYPRE_PCGSetMaxIter")) return 1; s->max_iter = v; record("pcg.MaxIter", v); return 0; }
HYPRE_Int HYPRE_ParCSRPCGSetTol(HYPRE_Solver s, HYPRE_Real v) { return HYPRE_PCGSetTol(s, v); }
HYPRE_Int HYPRE_ParCSRPCGSetMaxIter(HYPRE_Solver s, HYPRE_Int v) { return HYPRE_PCGSetMaxIter(s, v); }
HYPRE_Int HYPRE_ParCSRPCGSetPrintLevel(HYPRE_Solver s, HYPRE_Int v) { if (!alive(s, PCG, "HYPRE_ParCSRPCGSetPrintLevel")) return 1; record("pcg.PrintLevel", v); s->print = v; return 0; }
HYPRE_Int HYPRE_ParCSRPCGSetPrecond(HYPRE_Solver s, HYPRE_PtrToParSolverFcn f, HYPRE_PtrToParSolverFcn fs, HYPRE_Solver d)
{
    if (!alive(s, PCG, "HYPRE_ParCSRPCGSetPrecond")) return 1;
    s->precond = f; s->precond_setup = fs; s->precond_solver = d;
    record("pcg.Precond");
    return 0;
}
HYPRE_Int HYPRE_ParCSRPCGSetup(HYPRE_Solver s, HYPRE_ParCSRMatrix A, HYPRE_ParVector b, HYPRE_ParVector x)
{
    if (!alive(s, PCG, "HYPRE_ParCSRPCGSetup")) return 1;
    square("HYPRE_ParCSRPCGSetup", A, b, x, false);
    record("pcg.Setup", s->tol, s->max_iter);
    s->ready = true; s->rows = A->diag->num_rows;
    if (s->precond_setup) okay("the preconditioner's set-up", s->precond_setup(s->precond_solver, A, b, x));
    return 0;
}
HYPRE_Int HYPRE_ParCSRPCGSolve(HYPRE_Solver s, HYPRE_ParCSRMatrix A, HYPRE_ParVector b, HYPRE_ParVector x)
{
    if (!alive(s, PCG, "HYPRE_ParCSRPCGSolve")) return 1;
    if (!s->ready) { misuse("HYPRE_ParCSRPCGSolve before HYPRE_ParCSRPCGSetup"); return 1; }
    square("HYPRE_ParCSRPCGSolve", A, b, x, true);
    const int n = A->diag->num_rows;
    auto prec = [&](std::vector<double>& r, std::vector<double>& z)
    {
        if (!s->precond) { z = r; return; }
        std::fill(z.begin(), z.end(), 0.0);
        double dummy = 0;
        Holder hr(A, n ? r.data() : &dummy), hz(A, n ? z.data() : &dummy);
        okay("the preconditioner", s->precond(s->precond_solver, A, hr.v, hz.v));
    };
    std::vector<double> xs(x->local_vector->data, x->local_vector->data + n), bs(b->local_vector->data, b->local_vector->data + n), r(n), p(n), q(n);
    prec(bs, p);
    double bi = dot(A->comm, p, bs), eps = s->tol * s->tol;
    int it = 0;
    if (bi > 0)
    {
        apply(A, xs, r);
        for (int i = 0; i < n; ++i) r[i] = bs[i] - r[i];
        prec(r, p);
        double gamma = dot(A->comm, r, p);
        while (it < s->max_iter && gamma > 0)
        {
            ++it;
            apply(A, p, q);
            double pq = dot(A->comm, p, q);
            if (pq == 0) break;
            double alpha = gamma / pq;
            for (int i = 0; i < n; ++i) { xs[i] += alpha * p[i]; r[i] -= alpha * q[i]; }
            prec(r, q);
            double old = gamma;
            gamma = dot(A->comm, r, q);
            if (gamma / bi < eps) break;
            for (int i = 0; i < n; ++i) p[i] = q[i] + gamma / old * p[i];
        }
    }
    else if (bi == 0) xs = bs;
    record("pcg.Solve", s->tol, s->max_iter, it, s->precond ? 1 : 0, bi, s->precond == &HYPRE_ParCSRDiagScale ? 1 : 0, s->print);
    std::copy(xs.begin(), xs.end(), x->local_vector->data);
    return 0;
}

HYPRE_Int hypre_ParCSRRelax(hypre_ParCSRMatrix* A, hypre_ParVector* f, HYPRE_Int type, HYPRE_Int times, HYPRE_Real* l1, HYPRE_Real w, HYPRE_Real omega,
                            HYPRE_Real, HYPRE_Real, HYPRE_Int, HYPRE_Real, hypre_ParVector* u, hypre_ParVector* v, hypre_ParVector*)
{
    square("hypre_ParCSRRelax", A, f, u, true);
    sizes("hypre_ParCSRRelax (work vector)", v, A->diag->num_rows, A->global_num_rows);
    const int n = A->diag->num_rows;
    double l1sum = 0;
    if (type >= 1 && type <= 4) for (int i = 0; i < n; ++i) l1sum += l1[i];
    record("relax", type, times, w, omega, l1sum);
    double* ud = u->local_vector->data;
    const double* fd = f->local_vector->data;
    double* vd = v->local_vector->data;
    if (ud == fd || ud == vd || fd == vd) if (n > 0) misuse("hypre_ParCSRRelax: the vectors alias");
    std::vector<double> us(ud, ud + n), r(n);
    for (int s = 0; s < times; ++s)
    {
        apply(A, us, r);
        for (int i = 0; i < n; ++i) r[i] = fd[i] - r[i];
        for (int i = 0; i < n; ++i)
        {
            // the block Gauss-Seidel variants are represented by their Jacobi counterparts with the same scaling
            double d = (type >= 1 && type <= 4) ? l1[i] : (A->diag->i[i + 1] > A->diag->i[i] ? A->diag->data[A->diag->i[i]] : 1.0);
            us[i] += w * r[i] / d;
            vd[i] = r[i];
        }
    }
    std::copy(us.begin(), us.end(), ud);
    return 0;
}

// ---------------------------------------------------------------- eigensolver
namespace
{
const int INTERPRETER = 0x1a7e49;
// HYPRE's own callbacks take the operator for one of its matrices
void* own_create(void*, void*) { misuse("HYPRE's own MatvecCreate was called on an operator that is not one of its matrices"); return nullptr; }
HYPRE_Int own_destroy(void*) { misuse("HYPRE's own MatvecDestroy was called for an operator that is not one of its matrices"); return 0; }
}
HYPRE_Int HYPRE_ParCSRSetupInterpreter(mv_InterfaceInterpreter* i) { i->dummy = INTERPRETER; return 0; }
HYPRE_Int HYPRE_ParCSRSetupMatvec(HYPRE_MatvecFunctions* m) { m->MatvecCreate = &own_create; m->Matvec = nullptr; m->MatvecDestroy = &own_destroy; return 0; }
mv_MultiVectorPtr mv_MultiVectorCreateFromSampleVector(void* in, HYPRE_Int n, void* sample)
{
    if (!in || ((mv_InterfaceInterpreter*)in)->dummy != INTERPRETER) misuse("mv_MultiVectorCreateFromSampleVector: the interpreter was not set up");
    hypre_ParVector* v = (hypre_ParVector*)sample;
    mv_MultiVectorPtr p = fresh<mv_MultiVector>();
    p->data = hypre_CTAlloc(mv_TempMultiVector, 1);
    p->data->numVectors = n;
    p->data->ownsVectors = 1;
    p->data->vector = hypre_CTAlloc(void*, n);
    for (int i = 0; i < n; ++i)
    {
        hypre_ParVector* x = hypre_ParVectorCreate(v->comm, v->global_size, v->partitioning);
        x->owns_partitioning = 0;
        hypre_ParVectorInitialize(x);
        p->data->vector[i] = x;
    }
    return p;
}
void mv_MultiVectorDestroy(mv_MultiVectorPtr p)
{
    if (!p) return;
    for (long i = 0; i < p->data->numVectors; ++i) hypre_ParVectorDestroy((hypre_ParVector*)p->data->vector[i]);
    hypre_Free(p->data->vector);
    std::free(p->data);
    gone(p);
}
HYPRE_Int HYPRE_LOBPCGCreate(mv_InterfaceInterpreter* in, HYPRE_MatvecFunctions* m, HYPRE_Solver* s) { if (!in || in->dummy != INTERPRETER) misuse("HYPRE_LOBPCGCreate: the interpreter was not set up"); *s = create(EIGEN); (*s)->mv = m; return 0; }
HYPRE_Int HYPRE_LOBPCGDestroy(HYPRE_Solver s) { return destroy(s, EIGEN, "HYPRE_LOBPCGDestroy"); }
HYPRE_Int HYPRE_LOBPCGSetPrecond(HYPRE_Solver s, HYPRE_PtrToSolverFcn f, HYPRE_PtrToSolverFcn fs, HYPRE_Solver d)
{
    if (!alive(s, EIGEN, "HYPRE_LOBPCGSetPrecond")) return 1;
    s->eprecond = f; s->precond_solver = d;
    if (fs) okay("the preconditioner's set-up", fs(d, (HYPRE_Matrix)s->op, nullptr, nullptr));
    return 0;
}
HYPRE_Int HYPRE_LOBPCGSetup(HYPRE_Solver s, HYPRE_Matrix A, HYPRE_Vector, HYPRE_Vector) { if (!alive(s, EIGEN, "HYPRE_LOBPCGSetup")) return 1; s->op = (void*)A; s->ready = true; return 0; }
HYPRE_Int HYPRE_LOBPCGSetPrintLevel(HYPRE_Solver s, HYPRE_Int v) { if (!alive(s, EIGEN, "HYPRE_LOBPCGSetPrintLevel")) return 1; record("eigen.PrintLevel", v); s->print = v; return 0; }
HYPRE_Int HYPRE_LOBPCGSetTol(HYPRE_Solver s, HYPRE_Real v) { if (!alive(s, EIGEN, "HYPRE_LOBPCGSetTol")) return 1; s->tol = v; return 0; }
HYPRE_Int HYPRE_LOBPCGSetMaxIter(HYPRE_Solver s, HYPRE_Int v) { if (!alive(s, EIGEN, "HYPRE_LOBPCGSetMaxIter")) return 1; s->max_iter = v; return 0; }
// Finds the smallest pairs of the operator by applying it to every unit vector and rotating (small systems only).
HYPRE_Int HYPRE_LOBPCGSolve(HYPRE_Solver s, mv_MultiVectorPtr, mv_MultiVectorPtr X, HYPRE_Real* lambda)
{
    if (!alive(s, EIGEN, "HYPRE_LOBPCGSolve")) return 1;
    if (!s->ready) { misuse("HYPRE_LOBPCGSolve before HYPRE_LOBPCGSetup"); return 1; }
    if (!s->mv || !s->mv->Matvec) { misuse("HYPRE_LOBPCGSolve without a matrix-vector product"); return 1; }
    const int k = (int)X->data->numVectors;
    if (k == 0) return 0;
    hypre_ParVector* x0 = (hypre_ParVector*)X->data->vector[0];
    const int N = x0->global_size, b = x0->first_index, n = x0->local_vector->size;
    MPI_Comm comm = x0->comm;
    for (int i = 0; i < k; ++i) { double t = 0, u = 0; for (int j = 0; j < n; ++j) { double v = ((hypre_ParVector*)X->data->vector[i])->local_vector->data[j]; t += v * (j + b + 1); u += std::fabs(v); } record("eigen.Guess", i, t, u); }
    std::vector<double> e(n + 1, 0.0), y(n + 1, 0.0);
    hypre_ParVector hx = *x0, hy = *x0;
    hypre_Vector lx = *x0->local_vector, ly = *x0->local_vector;
    hx.local_vector = &lx; hy.local_vector = &ly; lx.data = e.data(); ly.data = y.data();
    auto column = [&](std::vector<double>& out)
    {
        std::vector<double> mine(N, 0.0);
        for (int j = 0; j < n; ++j) mine[b + j] = y[j];
        MPI_Allreduce(mine.data(), out.data(), N, MPI_DOUBLE, MPI_SUM, comm);
    };
    void* data = s->mv->MatvecCreate ? s->mv->MatvecCreate(s->op, &hx) : nullptr;
    std::vector<std::vector<double>> A(N, std::vector<double>(N, 0.0)), V(N, std::vector<double>(N, 0.0));
    for (int g = 0; g < N; ++g)
    {
        std::fill(e.begin(), e.end(), 0.0);
        std::fill(y.begin(), y.end(), std::nan(""));
        if (g >= b && g < b + n) e[g - b] = 1.0;
        okay("the matrix-vector product", s->mv->Matvec(data, 1.0, s->op, &hx, 0.0, &hy));
        std::vector<double> col(N);
        column(col);
        for (int i = 0; i < N; ++i) A[i][g] = col[i];
        V[g][g] = 1.0;
    }
    if (s->eprecond)
    {
        // the preconditioner has to be a linear map that does not look at the old contents of its output
        std::vector<double> one(N), two(N);
        for (int t = 0; t < 2; ++t)
        {
            for (int j = 0; j < n; ++j) e[j] = std::sin(1.0 + b + j);
            std::fill(y.begin(), y.end(), t ? 3.0 : 0.0);
            okay("the preconditioner", s->eprecond(s->precond_solver, (HYPRE_Matrix)s->op, (HYPRE_Vector)&hx, (HYPRE_Vector)&hy));
            column(t ? two : one);
        }
        double d = 0;
        for (int i = 0; i < N; ++i) d = std::max(d, std::fabs(one[i] - two[i]));
        double w = 0;
        for (int j = 0; j < n; ++j) w += y[j] * (j + b + 1);
        record("eigen.Precond", d, w);
    }
    if (s->mv->MatvecDestroy) okay("MatvecDestroy", s->mv->MatvecDestroy(data));
    double asym = 0;
    for (int i = 0; i < N; ++i) for (int j = 0; j < i; ++j) { asym = std::max(asym, std::fabs(A[i][j] - A[j][i])); A[i][j] = A[j][i] = 0.5 * (A[i][j] + A[j][i]); }
    record("eigen.Solve", N, k, asym, s->print, s->eprecond ? 1 : 0);
    for (int sweep = 0; sweep < 60; ++sweep)
    {
        double off = 0, all = 0;
        for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { all += A[i][j] * A[i][j]; if (i != j) off += A[i][j] * A[i][j]; }
        if (!(off > 1e-30 * all)) break;
        for (int p = 0; p < N; ++p) for (int q = p + 1; q < N; ++q)
        {
            if (A[p][q] == 0) continue;
            double th = (A[q][q] - A[p][p]) / (2 * A[p][q]), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), sn = t * c;
            for (int i = 0; i < N; ++i) { double u = A[i][p], w = A[i][q]; A[i][p] = c * u - sn * w; A[i][q] = sn * u + c * w; }
            for (int i = 0; i < N; ++i) { double u = A[p][i], w = A[q][i]; A[p][i] = c * u - sn * w; A[q][i] = sn * u + c * w; }
            for (int i = 0; i < N; ++i) { double u = V[i][p], w = V[i][q]; V[i][p] = c * u - sn * w; V[i][q] = sn * u + c * w; }
        }
    }
    std::vector<int> order(N);
    for (int i = 0; i < N; ++i) order[i] = i;
    std::sort(order.begin(), order.end(), [&](int i, int j) { return A[i][i] < A[j][j]; });
    for (int i = 0; i < k; ++i)
    {
        int q = i < N ? order[i] : 0;
        lambda[i] = i < N ? A[q][q] : 0.0;
        for (int j = 0; j < n; ++j) ((hypre_ParVector*)X->data->vector[i])->local_vector->data[j] = i < N ? V[b + j][q] : 0.0;
    }
    return 0;
}

// -------------------------------------------------------------- running ranks
namespace standin
{
int rank() { return my_rank; }
void adopt(int r) { my_rank = r; }
void team_seen(int n) { if (W && n > 1) ++W->teams; }
void barrier() { MPI_Barrier(MPI_COMM_WORLD); }
void mark(double v) { record("mark", v); }
Outcome world(int ranks, uint64_t seed, const std::function<void(int)>& body)
{
    World w;
    w.n = w.alive = ranks;
    w.arrived = 0; w.gen = 0; w.broken = w.deadlock = false;
    w.tag.resize(ranks); w.slot.assign(ranks, nullptr); w.error.assign(ranks, 0); w.thrown.resize(ranks); w.calls.resize(ranks);
    for (int i = 0; i < ranks; ++i) w.rng.push_back(seed * 0x9E3779B97F4A7C15ull + i * 7919);
    w.collectives = 0; w.exchanges = 0; w.matvecs = 0; w.live = 0; w.teams = 0;
    W = &w;
    auto one = [&](int r)
    {
        my_rank = r;
        set_team(1 + (int)((seed >> 40) % 4), seed + r);
        try { body(r); }
        catch (const RankStopped&) { w.thrown[r] = "stopped: the other ranks were elsewhere, or HYPRE was called wrongly"; }
        catch (const std::exception& e) { w.thrown[r] = std::string("exception: ") + e.what(); }
        catch (...) { w.thrown[r] = "exception"; }
        std::lock_guard<std::mutex> g(w.mu);
        --w.alive;
        if (w.arrived > 0 && w.arrived >= w.alive && !w.broken) { w.broken = w.deadlock = true; w.cv.notify_all(); }
    };
    if (ranks == 1) one(0);
    else
    {
        std::vector<std::thread> th;
        for (int r = 0; r < ranks; ++r) th.push_back(std::thread(one, r));
        for (auto& t : th) t.join();
    }
    W = nullptr;
    my_rank = 0;
    Outcome o;
    o.misuse = w.misuse; o.thrown = w.thrown; o.calls = w.calls;
    o.collectives = w.collectives; o.exchanges = w.exchanges; o.matvecs = w.matvecs; o.live_objects = w.live;
    o.deadlock = w.deadlock; o.teams = w.teams;
    return o;
}
}
