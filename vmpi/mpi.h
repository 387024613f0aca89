#ifndef VMPI_MPI_H
#define VMPI_MPI_H
/* Instrumented stand-in for MPI used by the monitors (see vmpi.c). */
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm;
typedef int MPI_Group;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Info;
typedef int MPI_Errhandler;
typedef long long MPI_Request;
typedef int MPI_Fint;
typedef long MPI_Aint;
typedef long long MPI_Offset;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; long long vm_count; } MPI_Status;

#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_COMM_NULL     ((MPI_Comm)0)
#define MPI_COMM_WORLD    ((MPI_Comm)0x44000001)
#define MPI_COMM_SELF     ((MPI_Comm)0x44000002)
#define MPI_REQUEST_NULL  ((MPI_Request)0x2c0000005e55LL)
#define MPI_STATUS_IGNORE   ((MPI_Status*)1)
#define MPI_STATUSES_IGNORE ((MPI_Status*)1)
#define MPI_IN_PLACE      ((void*)-1)
#define MPI_BOTTOM        ((void*)0)
#define MPI_ANY_SOURCE (-2)
#define MPI_PROC_NULL  (-1)
#define MPI_ANY_TAG    (-1)
#define MPI_UNDEFINED  (-32766)
#define MPI_ERRORS_ARE_FATAL 1
#define MPI_ERRORS_RETURN 2
#define MPI_INFO_NULL 0
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_MAX_PROCESSOR_NAME 128
#define MPI_MAX_ERROR_STRING 256
#define MPI_COMM_TYPE_SHARED 1
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3
#define MPI_TAG_UB 0x64400001

enum { VM_DT_BASE=0x4c000000,
  MPI_CHAR, MPI_SIGNED_CHAR, MPI_UNSIGNED_CHAR, MPI_BYTE, MPI_SHORT, MPI_UNSIGNED_SHORT,
  MPI_INT, MPI_UNSIGNED, MPI_LONG, MPI_UNSIGNED_LONG, MPI_LONG_LONG_INT, MPI_UNSIGNED_LONG_LONG,
  MPI_FLOAT, MPI_DOUBLE, MPI_PACKED, VM_DT_END };
#define MPI_LONG_LONG MPI_LONG_LONG_INT
#define MPI_INT32_T MPI_INT
#define MPI_UINT32_T MPI_UNSIGNED
#define MPI_INT64_T MPI_LONG
#define MPI_UINT64_T MPI_UNSIGNED_LONG
#define MPI_INT8_T MPI_SIGNED_CHAR
#define MPI_UINT8_T MPI_UNSIGNED_CHAR
#define MPI_DATATYPE_NULL 0x0c000000
enum { VM_OP_BASE=0x58000000, MPI_MAX, MPI_MIN, MPI_SUM, MPI_PROD, MPI_LAND, MPI_BAND, MPI_LOR,
  MPI_BOR, MPI_LXOR, MPI_BXOR, VM_OP_END };

int MPI_Init(int*,char***); int MPI_Init_thread(int*,char***,int,int*);
int MPI_Initialized(int*); int MPI_Finalized(int*); int MPI_Finalize(void);
int MPI_Abort(MPI_Comm,int);
double MPI_Wtime(void); double MPI_Wtick(void);
int MPI_Get_processor_name(char*,int*); int MPI_Query_thread(int*);
int MPI_Comm_rank(MPI_Comm,int*); int MPI_Comm_size(MPI_Comm,int*);
int MPI_Comm_dup(MPI_Comm,MPI_Comm*); int MPI_Comm_split(MPI_Comm,int,int,MPI_Comm*);
int MPI_Comm_free(MPI_Comm*); int MPI_Comm_compare(MPI_Comm,MPI_Comm,int*);
int MPI_Comm_set_errhandler(MPI_Comm,MPI_Errhandler);
MPI_Fint MPI_Comm_c2f(MPI_Comm); MPI_Comm MPI_Comm_f2c(MPI_Fint);
int MPI_Type_size(MPI_Datatype,int*);
int MPI_Get_count(const MPI_Status*,MPI_Datatype,int*);

int MPI_Send(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Ssend(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Recv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
int MPI_Isend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Issend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Irecv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Sendrecv(const void*,int,MPI_Datatype,int,int,void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
int MPI_Wait(MPI_Request*,MPI_Status*); int MPI_Waitall(int,MPI_Request*,MPI_Status*);
int MPI_Waitany(int,MPI_Request*,int*,MPI_Status*);
int MPI_Waitsome(int,MPI_Request*,int*,int*,MPI_Status*);
int MPI_Test(MPI_Request*,int*,MPI_Status*); int MPI_Testall(int,MPI_Request*,int*,MPI_Status*);
int MPI_Testany(int,MPI_Request*,int*,int*,MPI_Status*);
int MPI_Probe(int,int,MPI_Comm,MPI_Status*); int MPI_Iprobe(int,int,MPI_Comm,int*,MPI_Status*);
int MPI_Request_free(MPI_Request*);

int MPI_Barrier(MPI_Comm); int MPI_Ibarrier(MPI_Comm,MPI_Request*);
int MPI_Bcast(void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Ibcast(void*,int,MPI_Datatype,int,MPI_Comm,MPI_Request*);
int MPI_Reduce(const void*,void*,int,MPI_Datatype,MPI_Op,int,MPI_Comm);
int MPI_Allreduce(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Iallreduce(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm,MPI_Request*);
int MPI_Scan(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Exscan(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Gather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Gatherv(const void*,int,MPI_Datatype,void*,const int*,const int*,MPI_Datatype,int,MPI_Comm);
int MPI_Scatter(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Allgather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm);
int MPI_Allgatherv(const void*,int,MPI_Datatype,void*,const int*,const int*,MPI_Datatype,MPI_Comm);
int MPI_Alltoall(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm);
int MPI_Alltoallv(const void*,const int*,const int*,MPI_Datatype,void*,const int*,const int*,MPI_Datatype,MPI_Comm);
#ifdef __cplusplus
}
#endif
#endif
