// What crosses into LAPACK, BLAS, UMFPACK and METIS: every call of the library is wrapped at
// link time, its dimensions and the extents of its arrays are checked before the real routine
// runs (the routines themselves carry no instrumentation), and handles are accounted for.
#include "common.hpp"
#include <atomic>
#include <map>
#include <mutex>
#include <umfpack.h>
#include <metis.h>

#if VERIF_ASAN
extern "C" void* __asan_region_is_poisoned(void*, size_t);
#endif

namespace
{
enum Id { DGEMM, DGESVD, DGEQP3, DORGQR, DGETRF, DGETRI, DSYEV, SYMBOLIC, NUMERIC, SOLVE, FREE_S, FREE_N, METIS, NIDS };
const char* NAMES[] = {"dgemm", "dgesvd", "dgeqp3", "dorgqr", "dgetrf", "dgetri", "dsyev", "umfpack symbolic", "umfpack numeric", "umfpack solve", "umfpack free symbolic", "umfpack free numeric", "METIS_PartGraphKway"};
std::atomic<long> calls[NIDS], arrays;

void bad(int id, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void bad(int id, const char* fmt, ...)
{
    char b[500]; va_list ap; va_start(ap, fmt); std::vsnprintf(b, sizeof(b), fmt, ap); va_end(ap);
    vh::boundary_report(NAMES[id], b);
    throw vh::CaseFail(); // the real routine would corrupt memory
}
void seen(int id) { calls[id].fetch_add(1, std::memory_order_relaxed); }

void extent(int id, const char* what, const void* p, long long bytes)
{
    arrays.fetch_add(1, std::memory_order_relaxed);
    if (bytes <= 0) return;
    if (!p) bad(id, "%s: null pointer for %lld bytes", what, bytes);
#if VERIF_ASAN
    if (const void* q = __asan_region_is_poisoned(const_cast<void*>(p), (size_t)bytes))
        bad(id, "%s: %lld bytes are used, byte %lld is not part of the object", what, bytes, (long long)((const char*)q - (const char*)p));
#endif
}
// column-major m x n with leading dimension ld
void matrix(int id, const char* what, const double* p, int m, int n, int ld)
{
    if (m < 0 || n < 0) bad(id, "%s: dimensions %d x %d", what, m, n);
    if (ld < std::max(1, m)) bad(id, "%s: leading dimension %d for %d rows", what, ld, m);
    if (m && n) extent(id, what, p, ((long long)ld * (n - 1) + m) * 8);
}
void disjoint(int id, const char* what, const void* a, long long na, const void* b, long long nb)
{
    if (!a || !b || na <= 0 || nb <= 0) return;
    const char* p = (const char*)a; const char* q = (const char*)b;
    if (p < q + nb && q < p + na) bad(id, "%s overlap", what);
}
long long bytes(int m, int n, int ld) { return m && n ? ((long long)ld * (n - 1) + m) * 8 : 0; }
bool is(const char* c, char x) { return (c[0] & ~32) == x; }
void after(int id, const int* info) { if (*info < 0) bad(id, "argument %d was rejected by the routine", -*info); }
void workspace(int id, const double* work, int lwork, long long least)
{
    if (lwork < least) bad(id, "workspace of %d numbers, at least %lld are needed", lwork, least);
    extent(id, "workspace", work, (long long)lwork * 8);
}
bool query(int id, const double* work, const int* lwork) { if (*lwork != -1) return false; extent(id, "workspace query", work, 8); return true; }

#if !defined(__SANITIZE_THREAD__)
struct Fact { int n, nz; uint64_t sig; };
std::mutex mx;
std::map<void*, Fact>& numerics() { static std::map<void*, Fact>* m = new std::map<void*, Fact>(); return *m; }
#endif
uint64_t sig_of(int n, const int* Ap, const int* Ai, const double* Ax)
{
    uint64_t h = 7; for (int i = 0; i <= n; ++i) h = vh::hash_mix(h, (uint64_t)Ap[i]);
    for (int k = 0; k < Ap[n]; ++k) { uint64_t u; std::memcpy(&u, Ax + k, 8); h = vh::hash_mix(vh::hash_mix(h, (uint64_t)Ai[k]), u); }
    return h;
}
void columns(int id, int rows, int n, const int* Ap, const int* Ai, const double* Ax)
{
    extent(id, "column pointers", Ap, ((long long)n + 1) * 4);
    if (Ap[0] != 0) bad(id, "first pointer %d", Ap[0]);
    for (int i = 0; i < n; ++i) if (Ap[i + 1] < Ap[i]) bad(id, "pointers decrease at %d", i);
    extent(id, "indices", Ai, (long long)Ap[n] * 4); extent(id, "values", Ax, (long long)Ap[n] * 8);
    for (int k = 0; k < Ap[n]; ++k) if (Ai[k] < 0 || Ai[k] >= rows) bad(id, "index %d of %d", Ai[k], rows);
}
} // namespace

namespace vh
{
void boundary_flush()
{
    static const char* L[] = {"boundary: dgemm calls", "boundary: dgesvd calls", "boundary: dgeqp3 calls", "boundary: dorgqr calls", "boundary: dgetrf calls", "boundary: dgetri calls", "boundary: dsyev calls", "boundary: umfpack symbolic", "boundary: umfpack numeric", "boundary: umfpack solve", "boundary: umfpack symbolic freed", "boundary: umfpack numeric freed", "boundary: METIS calls"};
    for (int i = 0; i < NIDS; ++i) if (long n = calls[i].load()) count(L[i], n);
    if (long n = arrays.load()) count("boundary: array extents checked", n);
}
} // namespace vh

extern "C"
{
void __real_dgemm_(const char*, const char*, const int*, const int*, const int*, const double*, const double*, const int*, const double*, const int*, const double*, double*, const int*);
void __wrap_dgemm_(const char* ta, const char* tb, const int* m, const int* n, const int* k, const double* alpha, const double* A, const int* lda, const double* B, const int* ldb, const double* beta, double* C, const int* ldc)
{
    seen(DGEMM);
    bool na = is(ta, 'N'), nb = is(tb, 'N');
    if (!na && !is(ta, 'T') && !is(ta, 'C')) bad(DGEMM, "transA '%c'", ta[0]);
    if (!nb && !is(tb, 'T') && !is(tb, 'C')) bad(DGEMM, "transB '%c'", tb[0]);
    if (*m < 0 || *n < 0 || *k < 0) bad(DGEMM, "dimensions %d %d %d", *m, *n, *k);
    int am = na ? *m : *k, an = na ? *k : *m, bm = nb ? *k : *n, bn = nb ? *n : *k;
    matrix(DGEMM, "A", A, am, an, *lda); matrix(DGEMM, "B", B, bm, bn, *ldb); matrix(DGEMM, "C", C, *m, *n, *ldc);
    disjoint(DGEMM, "result and left operand", C, bytes(*m, *n, *ldc), A, bytes(am, an, *lda));
    disjoint(DGEMM, "result and right operand", C, bytes(*m, *n, *ldc), B, bytes(bm, bn, *ldb));
    __real_dgemm_(ta, tb, m, n, k, alpha, A, lda, B, ldb, beta, C, ldc);
}
void __real_dgesvd_(const char*, const char*, const int*, const int*, double*, const int*, double*, double*, const int*, double*, const int*, double*, const int*, int*);
void __wrap_dgesvd_(const char* ju, const char* jv, const int* m, const int* n, double* A, const int* lda, double* S, double* U, const int* ldu, double* VT, const int* ldvt, double* work, const int* lwork, int* info)
{
    seen(DGESVD);
    int mn = std::min(*m, *n);
    if (!query(DGESVD, work, lwork))
    {
        matrix(DGESVD, "A", A, *m, *n, *lda); extent(DGESVD, "singular values", S, 8ll * mn);
        if (is(ju, 'A')) matrix(DGESVD, "U", U, *m, *m, *ldu); else if (is(ju, 'S')) matrix(DGESVD, "U", U, *m, mn, *ldu); else if (*ldu < 1) bad(DGESVD, "ldu %d", *ldu);
        if (is(jv, 'A')) matrix(DGESVD, "VT", VT, *n, *n, *ldvt); else if (is(jv, 'S')) matrix(DGESVD, "VT", VT, mn, *n, *ldvt); else if (*ldvt < 1) bad(DGESVD, "ldvt %d", *ldvt);
        if (is(ju, 'O') && is(jv, 'O')) bad(DGESVD, "both factors overwrite A");
        workspace(DGESVD, work, *lwork, std::max(1ll, std::max(3ll * mn + std::max(*m, *n), 5ll * mn)));
    }
    __real_dgesvd_(ju, jv, m, n, A, lda, S, U, ldu, VT, ldvt, work, lwork, info);
    after(DGESVD, info);
}
void __real_dgeqp3_(const int*, const int*, double*, const int*, int*, double*, double*, const int*, int*);
void __wrap_dgeqp3_(const int* m, const int* n, double* A, const int* lda, int* jpvt, double* tau, double* work, const int* lwork, int* info)
{
    seen(DGEQP3);
    if (!query(DGEQP3, work, lwork))
    {
        matrix(DGEQP3, "A", A, *m, *n, *lda); extent(DGEQP3, "pivots", jpvt, 4ll * *n); extent(DGEQP3, "reflector scales", tau, 8ll * std::min(*m, *n));
        workspace(DGEQP3, work, *lwork, std::min(*m, *n) ? 3ll * *n + 1 : 1);
    }
    __real_dgeqp3_(m, n, A, lda, jpvt, tau, work, lwork, info);
    after(DGEQP3, info);
}
void __real_dorgqr_(const int*, const int*, const int*, double*, const int*, double*, double*, const int*, int*);
void __wrap_dorgqr_(const int* m, const int* n, const int* k, double* A, const int* lda, double* tau, double* work, const int* lwork, int* info)
{
    seen(DORGQR);
    if (!query(DORGQR, work, lwork))
    {
        if (!(*m >= *n && *n >= *k && *k >= 0)) bad(DORGQR, "%d reflectors for %d x %d", *k, *m, *n);
        matrix(DORGQR, "A", A, *m, *n, *lda); extent(DORGQR, "reflector scales", tau, 8ll * *k);
        workspace(DORGQR, work, *lwork, std::max(1, *n));
    }
    __real_dorgqr_(m, n, k, A, lda, tau, work, lwork, info);
    after(DORGQR, info);
}
void __real_dgetrf_(const int*, const int*, double*, const int*, int*, int*);
void __wrap_dgetrf_(const int* m, const int* n, double* A, const int* lda, int* ipiv, int* info)
{
    seen(DGETRF);
    matrix(DGETRF, "A", A, *m, *n, *lda); extent(DGETRF, "pivots", ipiv, 4ll * std::min(*m, *n));
    __real_dgetrf_(m, n, A, lda, ipiv, info);
    after(DGETRF, info);
}
void __real_dgetri_(const int*, double*, const int*, int*, double*, const int*, int*);
void __wrap_dgetri_(const int* n, double* A, const int* lda, int* ipiv, double* work, const int* lwork, int* info)
{
    seen(DGETRI);
    if (!query(DGETRI, work, lwork))
    {
        matrix(DGETRI, "A", A, *n, *n, *lda); extent(DGETRI, "pivots", ipiv, 4ll * *n);
        for (int i = 0; i < *n; ++i) if (ipiv[i] < 1 || ipiv[i] > *n) bad(DGETRI, "pivot %d of %d", ipiv[i], *n);
        workspace(DGETRI, work, *lwork, std::max(1, *n));
    }
    __real_dgetri_(n, A, lda, ipiv, work, lwork, info);
    after(DGETRI, info);
}
void __real_dsyev_(const char*, const char*, const int*, double*, const int*, double*, double*, const int*, int*);
void __wrap_dsyev_(const char* job, const char* uplo, const int* n, double* A, const int* lda, double* w, double* work, const int* lwork, int* info)
{
    seen(DSYEV);
    if (!query(DSYEV, work, lwork))
    {
        matrix(DSYEV, "A", A, *n, *n, *lda); extent(DSYEV, "eigenvalues", w, 8ll * *n);
        workspace(DSYEV, work, *lwork, std::max(1ll, 3ll * *n - 1));
    }
    __real_dsyev_(job, uplo, n, A, lda, w, work, lwork, info);
    after(DSYEV, info);
}

int __real_umfpack_di_symbolic(int, int, const int*, const int*, const double*, void**, const double*, double*);
int __wrap_umfpack_di_symbolic(int r, int c, const int* Ap, const int* Ai, const double* Ax, void** S, const double* ctl, double* info)
{
    seen(SYMBOLIC);
    columns(SYMBOLIC, r, c, Ap, Ai, Ax);
    if (ctl) extent(SYMBOLIC, "control", ctl, UMFPACK_CONTROL * 8);
    if (info) extent(SYMBOLIC, "info", info, UMFPACK_INFO * 8);
    return __real_umfpack_di_symbolic(r, c, Ap, Ai, Ax, S, ctl, info);
}
int __real_umfpack_di_numeric(const int*, const int*, const double*, void*, void**, const double*, double*);
int __wrap_umfpack_di_numeric(const int* Ap, const int* Ai, const double* Ax, void* S, void** N, const double* ctl, double* info)
{
    seen(NUMERIC);
    if (ctl) extent(NUMERIC, "control", ctl, UMFPACK_CONTROL * 8);
    if (info) extent(NUMERIC, "info", info, UMFPACK_INFO * 8);
    int st = __real_umfpack_di_numeric(Ap, Ai, Ax, S, N, ctl, info);
#if !defined(__SANITIZE_THREAD__)
    if (*N)
    {
        int lnz, unz, r, c, d; Fact f;
        if (umfpack_di_get_lunz(&lnz, &unz, &r, &c, &d, *N) == UMFPACK_OK)
        {
            f.n = c; f.nz = Ap[c]; f.sig = sig_of(c, Ap, Ai, Ax);
            std::lock_guard<std::mutex> l(mx); numerics()[*N] = f;
        }
    }
#endif
    return st;
}
int __real_umfpack_di_solve(int, const int*, const int*, const double*, double*, const double*, void*, const double*, double*);
int __wrap_umfpack_di_solve(int sys, const int* Ap, const int* Ai, const double* Ax, double* X, const double* B, void* N, const double* ctl, double* info)
{
    seen(SOLVE);
    if (ctl) extent(SOLVE, "control", ctl, UMFPACK_CONTROL * 8);
    if (info) extent(SOLVE, "info", info, UMFPACK_INFO * 8);
#if !defined(__SANITIZE_THREAD__)
    Fact f; bool known;
    { std::lock_guard<std::mutex> l(mx); auto it = numerics().find(N); known = it != numerics().end(); if (known) f = it->second; }
    if (!known) bad(SOLVE, "the factors are not live");
    columns(SOLVE, f.n, f.n, Ap, Ai, Ax);
    if (Ap[f.n] != f.nz || sig_of(f.n, Ap, Ai, Ax) != f.sig) bad(SOLVE, "the matrix is not the one that was factored");
    extent(SOLVE, "solution", X, 8ll * f.n); extent(SOLVE, "right-hand side", B, 8ll * f.n);
    disjoint(SOLVE, "solution and right-hand side", X, 8ll * f.n, B, 8ll * f.n);
#endif
    return __real_umfpack_di_solve(sys, Ap, Ai, Ax, X, B, N, ctl, info);
}
void __real_umfpack_di_free_symbolic(void**);
void __wrap_umfpack_di_free_symbolic(void** S) { seen(FREE_S); __real_umfpack_di_free_symbolic(S); }
void __real_umfpack_di_free_numeric(void**);
void __wrap_umfpack_di_free_numeric(void** N)
{
    seen(FREE_N);
#if !defined(__SANITIZE_THREAD__)
    if (N && *N)
    {
        bool known; { std::lock_guard<std::mutex> l(mx); known = numerics().erase(*N) > 0; }
        // in a destructor: an exception would end the program
        if (!known) { vh::boundary_report("umfpack free numeric", "the factors are not live: freed twice or never made"); *N = nullptr; return; }
    }
#endif
    __real_umfpack_di_free_numeric(N);
}
// called by the libraries themselves when they reject an argument
void xerbla_(const char* name, const int* info, size_t)
{
    char b[100]; std::snprintf(b, sizeof(b), "%.6s rejects argument %d", name, *info);
    vh::boundary_report("xerbla", b);
}
} // extern "C"
