/* Stand-in for <mpi.h>: the message layer is simulated inside one process by vmc.cc,
   so that every message order and every transfer time is under control of the explorer. */
#ifndef VMC_MPI_H
#define VMC_MPI_H
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Request;
typedef long MPI_Aint;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int vmc_bytes; } MPI_Status;
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_REQUEST_NULL 0
#define MPI_SUCCESS 0
#define MPI_BYTE 1
#define MPI_CHAR 2
#define MPI_UNSIGNED_CHAR 3
#define MPI_INT 4
#define MPI_FLOAT 5
#define MPI_DOUBLE 6
#define MPI_LONG_LONG 7
#define MPI_LONG_LONG_INT 7
#define MPI_INT64_T 7
#define MPI_LONG 7
#define MPI_UNSIGNED 8
#define MPI_UINT64_T 9
#define MPI_UNSIGNED_LONG 9
#define MPI_INT32_T 4
#define MPI_UINT32_T 8
#define MPI_PROC_NULL (-2)
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
int MPI_Init(int*,char***); int MPI_Init_thread(int*,char***,int,int*); int MPI_Initialized(int*); int MPI_Finalize(void); int MPI_Finalized(int*);
int MPI_Abort(MPI_Comm,int);
int MPI_Comm_dup(MPI_Comm,MPI_Comm*); int MPI_Comm_rank(MPI_Comm,int*); int MPI_Comm_size(MPI_Comm,int*); int MPI_Comm_free(MPI_Comm*);
int MPI_Barrier(MPI_Comm);
int MPI_Allreduce(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Reduce(const void*,void*,int,MPI_Datatype,MPI_Op,int,MPI_Comm);
int MPI_Bcast(void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Allgather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm);
int MPI_Gather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Send(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Ssend(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Recv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
int MPI_Isend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Issend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Irecv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Wait(MPI_Request*,MPI_Status*); int MPI_Waitall(int,MPI_Request*,MPI_Status*); int MPI_Test(MPI_Request*,int*,MPI_Status*);
int MPI_Testall(int,MPI_Request*,int*,MPI_Status*); int MPI_Type_size(MPI_Datatype,int*);
int MPI_Sendrecv(const void*,int,MPI_Datatype,int,int,void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
int MPI_Get_count(const MPI_Status*,MPI_Datatype,int*);
double MPI_Wtime(void);
#ifdef __cplusplus
}
#endif
#endif
