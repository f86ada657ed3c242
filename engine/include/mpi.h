/* Minimal MPI declarations used by gslib.  The same header serves two runtimes:
   - the symbolic executor (engine/symx.cpp), which interprets MPI_* itself,
   - the native replay runtime (engine/native.c), which implements them over
     forked processes.
   Only types/constants live here; no behaviour. */
#ifndef VERIF_MPI_H
#define VERIF_MPI_H
#include <stddef.h>
typedef int MPI_Comm;
typedef int MPI_Request;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Fint;
typedef long MPI_Aint;
typedef int MPI_Group;
typedef int MPI_Info;
typedef int MPI_Errhandler;
typedef int MPI_Win;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR, count_; } MPI_Status;
#define MPI_STATUS_IGNORE   ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_COMM_NULL  0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF  2
#define MPI_REQUEST_NULL 0
#define MPI_SUCCESS 0
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_UNDEFINED (-32766)
#define MPI_IN_PLACE ((void*)-1)
/* datatypes: low byte = size, next byte = kind (0 unsigned int,1 signed int,2 fp) */
#define MPI_BYTE          0x001
#define MPI_UNSIGNED_CHAR 0x001
#define MPI_CHAR          0x101
#define MPI_SHORT         0x102
#define MPI_INT           0x104
#define MPI_UNSIGNED      0x004
#define MPI_LONG          0x108
#define MPI_UNSIGNED_LONG 0x008
#define MPI_LONG_LONG     0x1108
#define MPI_LONG_LONG_INT 0x1108
#define MPI_UNSIGNED_LONG_LONG 0x1008
#define MPI_FLOAT         0x204
#define MPI_DOUBLE        0x208
#define MPI_SUM  1
#define MPI_PROD 2
#define MPI_MIN  3
#define MPI_MAX  4
#define MPI_LAND 5
#define MPI_BAND 6
#define MPI_LOR  7
#define MPI_BOR  8
#define MPI_BXOR 9
int MPI_Init(int*,char***); int MPI_Finalize(void);
int MPI_Initialized(int*);
int MPI_Abort(MPI_Comm,int);
double MPI_Wtime(void);
int MPI_Comm_dup(MPI_Comm,MPI_Comm*);
int MPI_Comm_split(MPI_Comm,int,int,MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_rank(MPI_Comm,int*);
int MPI_Comm_size(MPI_Comm,int*);
MPI_Comm MPI_Comm_f2c(MPI_Fint); MPI_Fint MPI_Comm_c2f(MPI_Comm);
int MPI_Barrier(MPI_Comm);
int MPI_Ibarrier(MPI_Comm,MPI_Request*);
int MPI_Send(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Ssend(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Recv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
int MPI_Sendrecv(const void*,int,MPI_Datatype,int,int,void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
int MPI_Isend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Irecv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Wait(MPI_Request*,MPI_Status*);
int MPI_Waitall(int,MPI_Request*,MPI_Status*);
int MPI_Test(MPI_Request*,int*,MPI_Status*);
int MPI_Testall(int,MPI_Request*,int*,MPI_Status*);
int MPI_Bcast(void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Gather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Allgather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm);
int MPI_Reduce(const void*,void*,int,MPI_Datatype,MPI_Op,int,MPI_Comm);
int MPI_Allreduce(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Iallreduce(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm,MPI_Request*);
int MPI_Scan(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Exscan(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Get_count(const MPI_Status*,MPI_Datatype,int*);
#endif
