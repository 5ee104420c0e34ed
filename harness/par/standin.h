// Stand-in for the part of HYPRE 2.10 that modules/parlinalgcpp uses: same names, same data structures, same
// documented semantics (including which calls need a prior set-up), implemented over the thread ranks of mpi.h.
// Every misuse that would crash or be undefined in HYPRE is reported to the monitor.
#ifndef STANDIN_HYPRE_H
#define STANDIN_HYPRE_H
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include "mpi.h"

#define HYPRE_NO_GLOBAL_PARTITION 1
typedef int HYPRE_Int;
typedef int HYPRE_BigInt;
typedef double HYPRE_Real;
typedef double HYPRE_Complex;

// ---------------------------------------------------------------- utilities
void* hypre_CAlloc(size_t count, size_t elt);
void hypre_Free(void* p);
#define hypre_CTAlloc(type, count) ((type*)hypre_CAlloc((size_t)(count), sizeof(type)))
#define hypre_TAlloc(type, count) hypre_CTAlloc(type, count)
#define hypre_TFree(ptr) (hypre_Free((void*)(ptr)), ptr = NULL)
int* standin_error_flag();
#define hypre_error_flag (*standin_error_flag())
void standin_error_in_arg(int k);
#define hypre_error_in_arg(k) standin_error_in_arg(k)
#ifdef HYPRE_USING_OPENMP
extern "C" { int omp_get_num_threads(); int omp_get_thread_num(); int omp_get_max_threads(); }   // team.cpp
inline HYPRE_Int hypre_NumThreads() { return omp_get_max_threads(); }
inline HYPRE_Int hypre_NumActiveThreads() { return omp_get_num_threads(); }
inline HYPRE_Int hypre_GetThreadNum() { return omp_get_thread_num(); }
#else
inline HYPRE_Int hypre_NumThreads() { return 1; }
inline HYPRE_Int hypre_NumActiveThreads() { return 1; }
inline HYPRE_Int hypre_GetThreadNum() { return 0; }
#endif
inline HYPRE_Int HYPRE_AssumedPartitionCheck() { return 1; }
HYPRE_Int hypre_BinarySearch(HYPRE_Int* list, HYPRE_Int value, HYPRE_Int list_length);
inline HYPRE_Int hypre_MPI_Comm_size(MPI_Comm c, HYPRE_Int* s) { return MPI_Comm_size(c, s); }
inline HYPRE_Int hypre_MPI_Comm_rank(MPI_Comm c, HYPRE_Int* s) { return MPI_Comm_rank(c, s); }

// ---------------------------------------------------------------- sequential
struct hypre_CSRMatrix
{
    HYPRE_Int* i; HYPRE_Int* j;
    HYPRE_Int num_rows, num_cols, num_nonzeros;
    HYPRE_Int* rownnz; HYPRE_Int num_rownnz;
    HYPRE_Complex* data;
    HYPRE_Int owns_data;
};
#define hypre_CSRMatrixData(m) ((m)->data)
#define hypre_CSRMatrixI(m) ((m)->i)
#define hypre_CSRMatrixJ(m) ((m)->j)
#define hypre_CSRMatrixNumRows(m) ((m)->num_rows)
#define hypre_CSRMatrixNumCols(m) ((m)->num_cols)
#define hypre_CSRMatrixNumNonzeros(m) ((m)->num_nonzeros)
#define hypre_CSRMatrixRownnz(m) ((m)->rownnz)
#define hypre_CSRMatrixNumRownnz(m) ((m)->num_rownnz)
#define hypre_CSRMatrixOwnsData(m) ((m)->owns_data)
hypre_CSRMatrix* hypre_CSRMatrixCreate(HYPRE_Int rows, HYPRE_Int cols, HYPRE_Int nnz);
HYPRE_Int hypre_CSRMatrixInitialize(hypre_CSRMatrix*);
HYPRE_Int hypre_CSRMatrixDestroy(hypre_CSRMatrix*);
HYPRE_Int hypre_CSRMatrixSetRownnz(hypre_CSRMatrix*);
HYPRE_Int hypre_CSRMatrixReorder(hypre_CSRMatrix*);

struct hypre_Vector
{
    HYPRE_Complex* data;
    HYPRE_Int size, owns_data, num_vectors, multivec_storage_method, vecstride, idxstride;
};
#define hypre_VectorData(v) ((v)->data)
#define hypre_VectorSize(v) ((v)->size)
#define hypre_VectorOwnsData(v) ((v)->owns_data)
#define hypre_SeqVectorSetDataOwner(v, o) ((v)->owns_data = (o), 0)

// ---------------------------------------------------------------- parallel
struct hypre_ParVector
{
    MPI_Comm comm;
    HYPRE_Int global_size, first_index, last_index;
    HYPRE_Int* partitioning;
    hypre_Vector* local_vector;
    HYPRE_Int owns_data, owns_partitioning;
};
typedef hypre_ParVector* HYPRE_ParVector;
#define hypre_ParVectorLocalVector(v) ((v)->local_vector)
#define hypre_ParVectorComm(v) ((v)->comm)
#define hypre_ParVectorGlobalSize(v) ((v)->global_size)
#define hypre_ParVectorPartitioning(v) ((v)->partitioning)
#define hypre_ParVectorOwnsData(v) ((v)->owns_data)
hypre_ParVector* hypre_ParVectorCreate(MPI_Comm comm, HYPRE_Int global_size, HYPRE_Int* partitioning);
HYPRE_Int hypre_ParVectorInitialize(hypre_ParVector*);
HYPRE_Int hypre_ParVectorDestroy(hypre_ParVector*);
HYPRE_Int hypre_ParVectorSetDataOwner(hypre_ParVector*, HYPRE_Int);
HYPRE_Int hypre_ParVectorSetPartitioningOwner(hypre_ParVector*, HYPRE_Int);

struct hypre_ParCSRCommPkg
{
    MPI_Comm comm;
    HYPRE_Int num_sends;
    HYPRE_Int* send_procs; HYPRE_Int* send_map_starts; HYPRE_Int* send_map_elmts;
    HYPRE_Int num_recvs;
    HYPRE_Int* recv_procs; HYPRE_Int* recv_vec_starts;
};
#define hypre_ParCSRCommPkgComm(p) ((p)->comm)
#define hypre_ParCSRCommPkgNumSends(p) ((p)->num_sends)
#define hypre_ParCSRCommPkgSendProcs(p) ((p)->send_procs)
#define hypre_ParCSRCommPkgSendProc(p, i) ((p)->send_procs[i])
#define hypre_ParCSRCommPkgSendMapStarts(p) ((p)->send_map_starts)
#define hypre_ParCSRCommPkgSendMapStart(p, i) ((p)->send_map_starts[i])
#define hypre_ParCSRCommPkgSendMapElmts(p) ((p)->send_map_elmts)
#define hypre_ParCSRCommPkgSendMapElmt(p, i) ((p)->send_map_elmts[i])
#define hypre_ParCSRCommPkgNumRecvs(p) ((p)->num_recvs)
#define hypre_ParCSRCommPkgRecvProcs(p) ((p)->recv_procs)
#define hypre_ParCSRCommPkgRecvVecStarts(p) ((p)->recv_vec_starts)
#define hypre_ParCSRCommPkgRecvVecStart(p, i) ((p)->recv_vec_starts[i])
struct hypre_ParCSRCommHandle { hypre_ParCSRCommPkg* comm_pkg; void* send_data; void* recv_data; HYPRE_Int job; };

struct hypre_ParCSRMatrix
{
    MPI_Comm comm;
    HYPRE_Int global_num_rows, global_num_cols, first_row_index, first_col_diag, last_row_index, last_col_diag;
    hypre_CSRMatrix* diag; hypre_CSRMatrix* offd;
    HYPRE_Int* col_map_offd;
    HYPRE_Int* row_starts; HYPRE_Int* col_starts;
    hypre_ParCSRCommPkg* comm_pkg;
    HYPRE_Int owns_data, owns_row_starts, owns_col_starts;
    HYPRE_Int num_nonzeros; HYPRE_Real d_num_nonzeros;
};
typedef hypre_ParCSRMatrix* HYPRE_ParCSRMatrix;
#define hypre_ParCSRMatrixComm(m) ((m)->comm)
#define hypre_ParCSRMatrixGlobalNumRows(m) ((m)->global_num_rows)
#define hypre_ParCSRMatrixGlobalNumCols(m) ((m)->global_num_cols)
#define hypre_ParCSRMatrixFirstRowIndex(m) ((m)->first_row_index)
#define hypre_ParCSRMatrixFirstColDiag(m) ((m)->first_col_diag)
#define hypre_ParCSRMatrixLastRowIndex(m) ((m)->last_row_index)
#define hypre_ParCSRMatrixLastColDiag(m) ((m)->last_col_diag)
#define hypre_ParCSRMatrixDiag(m) ((m)->diag)
#define hypre_ParCSRMatrixOffd(m) ((m)->offd)
#define hypre_ParCSRMatrixColMapOffd(m) ((m)->col_map_offd)
#define hypre_ParCSRMatrixRowStarts(m) ((m)->row_starts)
#define hypre_ParCSRMatrixColStarts(m) ((m)->col_starts)
#define hypre_ParCSRMatrixCommPkg(m) ((m)->comm_pkg)
#define hypre_ParCSRMatrixOwnsData(m) ((m)->owns_data)
#define hypre_ParCSRMatrixOwnsRowStarts(m) ((m)->owns_row_starts)
#define hypre_ParCSRMatrixOwnsColStarts(m) ((m)->owns_col_starts)
#define hypre_ParCSRMatrixNumNonzeros(m) ((m)->num_nonzeros)
#define hypre_ParCSRMatrixNumRows(m) ((m)->diag->num_rows)
#define hypre_ParCSRMatrixNumCols(m) ((m)->diag->num_cols)
hypre_ParCSRMatrix* hypre_ParCSRMatrixCreate(MPI_Comm, HYPRE_Int grows, HYPRE_Int gcols, HYPRE_Int* row_starts, HYPRE_Int* col_starts,
                                             HYPRE_Int num_cols_offd, HYPRE_Int nnz_diag, HYPRE_Int nnz_offd);
HYPRE_Int hypre_ParCSRMatrixDestroy(hypre_ParCSRMatrix*);
HYPRE_Int hypre_ParCSRMatrixSetNumNonzeros(hypre_ParCSRMatrix*);
HYPRE_Int hypre_MatvecCommPkgCreate(hypre_ParCSRMatrix*);
HYPRE_Int hypre_MatvecCommPkgDestroy(hypre_ParCSRCommPkg*);
hypre_ParCSRCommHandle* hypre_ParCSRCommHandleCreate(HYPRE_Int job, hypre_ParCSRCommPkg*, void* send, void* recv);
HYPRE_Int hypre_ParCSRCommHandleDestroy(hypre_ParCSRCommHandle*);
HYPRE_Int hypre_ParCSRMatrixMatvec(HYPRE_Complex alpha, hypre_ParCSRMatrix*, hypre_ParVector* x, HYPRE_Complex beta, hypre_ParVector* y);
HYPRE_Int hypre_ParCSRMatrixMatvecT(HYPRE_Complex alpha, hypre_ParCSRMatrix*, hypre_ParVector* x, HYPRE_Complex beta, hypre_ParVector* y);
hypre_CSRMatrix* hypre_ParCSRMatrixExtractBExt(hypre_ParCSRMatrix* B, hypre_ParCSRMatrix* A, HYPRE_Int data);

// ---------------------------------------------------------------- solvers
struct hypre_Solver_struct;
typedef hypre_Solver_struct* HYPRE_Solver;
struct hypre_Matrix_struct;
typedef hypre_Matrix_struct* HYPRE_Matrix;
struct hypre_Vector_struct;
typedef hypre_Vector_struct* HYPRE_Vector;
typedef HYPRE_Int (*HYPRE_PtrToSolverFcn)(HYPRE_Solver, HYPRE_Matrix, HYPRE_Vector, HYPRE_Vector);
typedef HYPRE_Int (*HYPRE_PtrToParSolverFcn)(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector);

HYPRE_Int HYPRE_BoomerAMGCreate(HYPRE_Solver*);
HYPRE_Int HYPRE_BoomerAMGDestroy(HYPRE_Solver);
HYPRE_Int HYPRE_BoomerAMGSetup(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector);
HYPRE_Int HYPRE_BoomerAMGSolve(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector);
HYPRE_Int HYPRE_BoomerAMGSetCoarsenType(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetAggNumLevels(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetRelaxType(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetNumSweeps(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetStrongThreshold(HYPRE_Solver, HYPRE_Real);
HYPRE_Int HYPRE_BoomerAMGSetInterpType(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetPMaxElmts(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetMaxLevels(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetPrintLevel(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetMaxIter(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetTol(HYPRE_Solver, HYPRE_Real);

HYPRE_Int HYPRE_ParaSailsCreate(MPI_Comm, HYPRE_Solver*);
HYPRE_Int HYPRE_ParaSailsDestroy(HYPRE_Solver);
HYPRE_Int HYPRE_ParaSailsSetup(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector);
HYPRE_Int HYPRE_ParaSailsSolve(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector);
HYPRE_Int HYPRE_ParaSailsSetParams(HYPRE_Solver, HYPRE_Real thresh, HYPRE_Int nlevels);
HYPRE_Int HYPRE_ParaSailsSetFilter(HYPRE_Solver, HYPRE_Real);
HYPRE_Int HYPRE_ParaSailsSetSym(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_ParaSailsSetLoadbal(HYPRE_Solver, HYPRE_Real);
HYPRE_Int HYPRE_ParaSailsSetReuse(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_ParaSailsSetLogging(HYPRE_Solver, HYPRE_Int);

HYPRE_Int HYPRE_ParCSRPCGCreate(MPI_Comm, HYPRE_Solver*);
HYPRE_Int HYPRE_ParCSRPCGDestroy(HYPRE_Solver);
HYPRE_Int HYPRE_ParCSRPCGSetup(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector);
HYPRE_Int HYPRE_ParCSRPCGSolve(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector);
HYPRE_Int HYPRE_ParCSRPCGSetPrintLevel(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_ParCSRPCGSetTol(HYPRE_Solver, HYPRE_Real);
HYPRE_Int HYPRE_ParCSRPCGSetMaxIter(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_PCGSetTol(HYPRE_Solver, HYPRE_Real);
HYPRE_Int HYPRE_PCGSetMaxIter(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_ParCSRPCGSetPrecond(HYPRE_Solver, HYPRE_PtrToParSolverFcn precond, HYPRE_PtrToParSolverFcn precond_setup, HYPRE_Solver precond_solver);
HYPRE_Int HYPRE_ParCSRDiagScale(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector y, HYPRE_ParVector x);
HYPRE_Int HYPRE_ParCSRDiagScaleSetup(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector);

HYPRE_Int hypre_ParCSRRelax(hypre_ParCSRMatrix* A, hypre_ParVector* f, HYPRE_Int relax_type, HYPRE_Int relax_times, HYPRE_Real* l1_norms,
                            HYPRE_Real relax_weight, HYPRE_Real omega, HYPRE_Real max_eig_est, HYPRE_Real min_eig_est, HYPRE_Int cheby_order,
                            HYPRE_Real cheby_fraction, hypre_ParVector* u, hypre_ParVector* v, hypre_ParVector* z);

// ---------------------------------------------------------------- eigensolver
struct mv_InterfaceInterpreter { int dummy; };
struct HYPRE_MatvecFunctions
{
    void* (*MatvecCreate)(void* A, void* x);
    HYPRE_Int (*Matvec)(void* matvec_data, HYPRE_Complex alpha, void* A, void* x, HYPRE_Complex beta, void* y);
    HYPRE_Int (*MatvecDestroy)(void* matvec_data);
};
struct mv_TempMultiVector { long numVectors; HYPRE_Int* mask; void** vector; HYPRE_Int ownsVectors, ownsMask; mv_InterfaceInterpreter* interpreter; };
struct mv_MultiVector { mv_TempMultiVector* data; };
typedef mv_MultiVector* mv_MultiVectorPtr;
HYPRE_Int HYPRE_ParCSRSetupInterpreter(mv_InterfaceInterpreter*);
HYPRE_Int HYPRE_ParCSRSetupMatvec(HYPRE_MatvecFunctions*);
mv_MultiVectorPtr mv_MultiVectorCreateFromSampleVector(void* interp, HYPRE_Int n, void* sample);
void mv_MultiVectorDestroy(mv_MultiVectorPtr);
inline void* mv_MultiVectorGetData(mv_MultiVectorPtr p) { return p->data; }
HYPRE_Int HYPRE_LOBPCGCreate(mv_InterfaceInterpreter*, HYPRE_MatvecFunctions*, HYPRE_Solver*);
HYPRE_Int HYPRE_LOBPCGDestroy(HYPRE_Solver);
HYPRE_Int HYPRE_LOBPCGSetPrecond(HYPRE_Solver, HYPRE_PtrToSolverFcn precond, HYPRE_PtrToSolverFcn precond_setup, HYPRE_Solver precond_solver);
HYPRE_Int HYPRE_LOBPCGSetup(HYPRE_Solver, HYPRE_Matrix, HYPRE_Vector, HYPRE_Vector);
HYPRE_Int HYPRE_LOBPCGSetPrintLevel(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_LOBPCGSetTol(HYPRE_Solver, HYPRE_Real);
HYPRE_Int HYPRE_LOBPCGSetMaxIter(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_LOBPCGSolve(HYPRE_Solver, mv_MultiVectorPtr constraints, mv_MultiVectorPtr vectors, HYPRE_Real* lambda);

// ---------------------------------------------------------------- the monitor's side
#include <functional>
#include <string>
#include <vector>
namespace standin
{
struct Call { std::string what; double a[8]; };             // one solver-level call, in order, per rank
struct Outcome
{
    std::vector<std::string> misuse;                        // reported violations of HYPRE's contract
    std::vector<std::string> thrown;                        // per rank: what escaped ("" = nothing)
    std::vector<std::vector<Call>> calls;                   // per rank
    long collectives, exchanges, matvecs, live_objects;     // events seen; HYPRE objects never destroyed
    bool deadlock;
    long teams;                                             // parallel regions entered by more than one thread
};
// runs body(rank) on `ranks` ranks, to the end
Outcome world(int ranks, uint64_t schedule_seed, const std::function<void(int)>& body);
int rank();
void barrier();
void mark(double v);                                        // an entry of the caller's own in its rank's record
// builds with OpenMP: threads of each rank's parallel regions
void set_team(int threads, uint64_t seed);
void adopt(int rank);
void team_seen(int threads);
}
#endif
