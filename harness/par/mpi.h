// Stand-in for MPI: the ranks of a world are threads of one process.
// Only what a HYPRE-style code needs; collectives are checked for agreement between the ranks.
#ifndef STANDIN_MPI_H
#define STANDIN_MPI_H
#include <cstddef>

typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; };

const MPI_Comm MPI_COMM_NULL = 0x04000000;
const MPI_Comm MPI_COMM_WORLD = 0x44000000;
const MPI_Comm MPI_COMM_SELF = 0x44000001;
// a duplicate of the world with the ranks counted from the other end; MPICH's made communicators have such handles
const MPI_Comm STANDIN_COMM_REVERSED = (int)0x84000000;
const MPI_Datatype MPI_INT = 101, MPI_DOUBLE = 102, MPI_CHAR = 103, MPI_LONG = 104, MPI_LONG_LONG = 105;
const MPI_Op MPI_SUM = 201, MPI_MAX = 202, MPI_MIN = 203, MPI_PROD = 204;
#define MPI_SUCCESS 0
#define MPI_IN_PLACE ((void*)-1)

int MPI_Init(int*, char***);
int MPI_Finalize();
int MPI_Initialized(int* flag);
int MPI_Comm_rank(MPI_Comm comm, int* rank);
int MPI_Comm_size(MPI_Comm comm, int* size);
int MPI_Barrier(MPI_Comm comm);
int MPI_Bcast(void* buf, int count, MPI_Datatype type, int root, MPI_Comm comm);
int MPI_Allreduce(const void* send, void* recv, int count, MPI_Datatype type, MPI_Op op, MPI_Comm comm);
int MPI_Reduce(const void* send, void* recv, int count, MPI_Datatype type, MPI_Op op, int root, MPI_Comm comm);
int MPI_Scan(const void* send, void* recv, int count, MPI_Datatype type, MPI_Op op, MPI_Comm comm);
int MPI_Exscan(const void* send, void* recv, int count, MPI_Datatype type, MPI_Op op, MPI_Comm comm);
int MPI_Allgather(const void* send, int ns, MPI_Datatype st, void* recv, int nr, MPI_Datatype rt, MPI_Comm comm);
double MPI_Wtime();

namespace MPI
{
const MPI_Datatype INT = MPI_INT, DOUBLE = MPI_DOUBLE;
const MPI_Op SUM = MPI_SUM, MAX = MPI_MAX, MIN = MPI_MIN;
}
#endif
