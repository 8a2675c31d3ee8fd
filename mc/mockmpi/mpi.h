// Stand-in for mpi.h: MPI is provided by the explorer (mock_mpi.c).
#ifndef MOCK_MPI_H
#define MOCK_MPI_H
#include <stddef.h>
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Request; typedef long MPI_Aint;
typedef int MPI_Group; typedef int MPI_Info; typedef int MPI_Errhandler; typedef long long MPI_Count;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; long bytes_; int cancelled_; } MPI_Status;
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_SUCCESS 0
#define MPI_ERR_TRUNCATE 15
#define MPI_ERR_OTHER 16
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_ROOT (-3)
#define MPI_UNDEFINED (-32766)
#define MPI_REQUEST_NULL 0
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)1)
#define MPI_BOTTOM ((void*)0)
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_INFO_NULL 0
#define MPI_ERRORS_RETURN 1
#define MPI_ERRORS_ARE_FATAL 0
#define MPI_TAG_UB 1
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_COMM_TYPE_SHARED 1
// datatype code: kind*256 + size ; kind 1 signed 2 unsigned 3 float 4 raw
#define MPI_DT_(k,s) ((k)*256+(int)(s))
#define MPI_DATATYPE_NULL 0
#define MPI_CHAR MPI_DT_(1,1)
#define MPI_SIGNED_CHAR MPI_DT_(1,1)
#define MPI_INT8_T MPI_DT_(1,1)
#define MPI_UNSIGNED_CHAR MPI_DT_(2,1)
#define MPI_UINT8_T MPI_DT_(2,1)
#define MPI_BYTE MPI_DT_(4,1)
#define MPI_PACKED MPI_DT_(4,1)
#define MPI_SHORT MPI_DT_(1,2)
#define MPI_INT16_T MPI_DT_(1,2)
#define MPI_UNSIGNED_SHORT MPI_DT_(2,2)
#define MPI_UINT16_T MPI_DT_(2,2)
#define MPI_INT MPI_DT_(1,4)
#define MPI_INTEGER MPI_DT_(1,4)
#define MPI_INT32_T MPI_DT_(1,4)
#define MPI_UNSIGNED MPI_DT_(2,4)
#define MPI_UINT32_T MPI_DT_(2,4)
#define MPI_LONG MPI_DT_(1,8)
#define MPI_LONG_LONG MPI_DT_(1,8)
#define MPI_LONG_LONG_INT MPI_DT_(1,8)
#define MPI_INT64_T MPI_DT_(1,8)
#define MPI_UNSIGNED_LONG MPI_DT_(2,8)
#define MPI_UNSIGNED_LONG_LONG MPI_DT_(2,8)
#define MPI_UINT64_T MPI_DT_(2,8)
#define MPI_AINT MPI_DT_(1,8)
#define MPI_FLOAT MPI_DT_(3,4)
#define MPI_DOUBLE MPI_DT_(3,8)
#define MPI_DOUBLE_PRECISION MPI_DT_(3,8)
#define MPI_C_BOOL MPI_DT_(2,1)
enum { MPI_OP_NULL=0, MPI_MAX, MPI_MIN, MPI_SUM, MPI_PROD, MPI_LAND, MPI_BAND, MPI_LOR, MPI_BOR, MPI_LXOR, MPI_BXOR, MPI_REPLACE };
int MPI_Init(int*,char***); int MPI_Init_thread(int*,char***,int,int*); int MPI_Initialized(int*); int MPI_Finalized(int*); int MPI_Finalize(void);
int MPI_Query_thread(int*);
int MPI_Abort(MPI_Comm,int);
int MPI_Comm_rank(MPI_Comm,int*); int MPI_Comm_size(MPI_Comm,int*);
int MPI_Comm_dup(MPI_Comm,MPI_Comm*); int MPI_Comm_split(MPI_Comm,int,int,MPI_Comm*); int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_split_type(MPI_Comm,int,int,MPI_Info,MPI_Comm*);
int MPI_Comm_set_errhandler(MPI_Comm,MPI_Errhandler); int MPI_Comm_get_attr(MPI_Comm,int,void*,int*);
int MPI_Comm_group(MPI_Comm,MPI_Group*); int MPI_Group_incl(MPI_Group,int,const int*,MPI_Group*); int MPI_Group_free(MPI_Group*);
int MPI_Comm_create(MPI_Comm,MPI_Group,MPI_Comm*); int MPI_Comm_create_group(MPI_Comm,MPI_Group,int,MPI_Comm*);
int MPI_Get_processor_name(char*,int*); int MPI_Error_string(int,char*,int*); int MPI_Error_class(int,int*);
double MPI_Wtime(void);
int MPI_Send(const void*,int,MPI_Datatype,int,int,MPI_Comm); int MPI_Ssend(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Bsend(const void*,int,MPI_Datatype,int,int,MPI_Comm); int MPI_Rsend(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Isend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*); int MPI_Issend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Recv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*); int MPI_Irecv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Sendrecv(const void*,int,MPI_Datatype,int,int,void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*);
int MPI_Wait(MPI_Request*,MPI_Status*); int MPI_Waitall(int,MPI_Request*,MPI_Status*); int MPI_Waitany(int,MPI_Request*,int*,MPI_Status*);
int MPI_Waitsome(int,MPI_Request*,int*,int*,MPI_Status*);
int MPI_Test(MPI_Request*,int*,MPI_Status*); int MPI_Testall(int,MPI_Request*,int*,MPI_Status*);
int MPI_Request_free(MPI_Request*); int MPI_Cancel(MPI_Request*);
int MPI_Probe(int,int,MPI_Comm,MPI_Status*); int MPI_Iprobe(int,int,MPI_Comm,int*,MPI_Status*);
int MPI_Get_count(const MPI_Status*,MPI_Datatype,int*); int MPI_Get_elements(const MPI_Status*,MPI_Datatype,int*);
int MPI_Type_size(MPI_Datatype,int*); int MPI_Type_contiguous(int,MPI_Datatype,MPI_Datatype*); int MPI_Type_commit(MPI_Datatype*); int MPI_Type_free(MPI_Datatype*);
int MPI_Barrier(MPI_Comm); int MPI_Bcast(void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Reduce(const void*,void*,int,MPI_Datatype,MPI_Op,int,MPI_Comm); int MPI_Allreduce(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Gather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Allgather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm);
int MPI_Allgatherv(const void*,int,MPI_Datatype,void*,const int*,const int*,MPI_Datatype,MPI_Comm);
int MPI_Gatherv(const void*,int,MPI_Datatype,void*,const int*,const int*,MPI_Datatype,int,MPI_Comm);
int MPI_Scatter(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Alltoall(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm);
#endif
