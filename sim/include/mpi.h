/*
 * Simulated MPI: the seam behind which every message, collective, clock and
 * communicator of the code under test lives.  Implemented by sim/simmpi.cpp on
 * top of the deterministic scheduler; nothing here talks to a real MPI.
 */
#ifndef VERIF_SIM_MPI_H
#define VERIF_SIM_MPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

struct sim_comm_s; struct sim_group_s; struct sim_req_s; struct sim_errh_s; struct sim_info_s;
struct sim_dtype_s { int size, kind, live; };
struct sim_op_s { int kind; };
typedef struct sim_comm_s*  MPI_Comm;
typedef struct sim_group_s* MPI_Group;
typedef struct sim_req_s*   MPI_Request;
typedef struct sim_dtype_s* MPI_Datatype;
typedef struct sim_op_s*    MPI_Op;
typedef struct sim_errh_s*  MPI_Errhandler;
typedef struct sim_info_s*  MPI_Info;
typedef int MPI_Fint;
typedef intptr_t MPI_Aint;
typedef long long MPI_Offset;
typedef long long MPI_Count;
typedef struct { int MPI_SOURCE; int MPI_TAG; int MPI_ERROR; int sim_cancelled; size_t sim_bytes; } MPI_Status;

/* predefined handles are addresses, all different from the null pointer, so a
 * zero-initialised handle is never a valid one (as in Open MPI and MPICH) */
extern char sim_handles[64];
#define MPI_COMM_NULL     ((MPI_Comm)(void*)&sim_handles[0])
#define MPI_COMM_WORLD    ((MPI_Comm)(void*)&sim_handles[1])
#define MPI_COMM_SELF     ((MPI_Comm)(void*)&sim_handles[2])
#define MPI_GROUP_NULL    ((MPI_Group)(void*)&sim_handles[3])
#define MPI_GROUP_EMPTY   ((MPI_Group)(void*)&sim_handles[4])
#define MPI_REQUEST_NULL  ((MPI_Request)(void*)&sim_handles[5])
#define MPI_DATATYPE_NULL ((MPI_Datatype)(void*)&sim_handles[6])
#define MPI_OP_NULL       ((MPI_Op)(void*)&sim_handles[7])
#define MPI_ERRHANDLER_NULL  ((MPI_Errhandler)(void*)&sim_handles[8])
#define MPI_ERRORS_ARE_FATAL ((MPI_Errhandler)(void*)&sim_handles[9])
#define MPI_ERRORS_RETURN    ((MPI_Errhandler)(void*)&sim_handles[10])
#define MPI_INFO_NULL     ((MPI_Info)(void*)&sim_handles[11])
#define MPI_IN_PLACE      ((void*)&sim_handles[12])
#define MPI_BOTTOM        ((void*)0)
#define MPI_STATUS_IGNORE   ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)

extern struct sim_dtype_s sim_dt[32];
#define MPI_BYTE              (&sim_dt[0])
#define MPI_CHAR              (&sim_dt[1])
#define MPI_SIGNED_CHAR       (&sim_dt[2])
#define MPI_UNSIGNED_CHAR     (&sim_dt[3])
#define MPI_SHORT             (&sim_dt[4])
#define MPI_UNSIGNED_SHORT    (&sim_dt[5])
#define MPI_INT               (&sim_dt[6])
#define MPI_UNSIGNED          (&sim_dt[7])
#define MPI_LONG              (&sim_dt[8])
#define MPI_UNSIGNED_LONG     (&sim_dt[9])
#define MPI_LONG_LONG         (&sim_dt[10])
#define MPI_LONG_LONG_INT     (&sim_dt[10])
#define MPI_UNSIGNED_LONG_LONG (&sim_dt[11])
#define MPI_FLOAT             (&sim_dt[12])
#define MPI_DOUBLE            (&sim_dt[13])
#define MPI_LONG_DOUBLE       (&sim_dt[14])
#define MPI_C_COMPLEX         (&sim_dt[15])
#define MPI_C_FLOAT_COMPLEX   (&sim_dt[15])
#define MPI_C_DOUBLE_COMPLEX  (&sim_dt[16])
#define MPI_CXX_FLOAT_COMPLEX (&sim_dt[15])
#define MPI_CXX_DOUBLE_COMPLEX (&sim_dt[16])
#define MPI_C_BOOL            (&sim_dt[17])
#define MPI_CXX_BOOL          (&sim_dt[17])
#define MPI_INT8_T            (&sim_dt[2])
#define MPI_UINT8_T           (&sim_dt[3])
#define MPI_INT16_T           (&sim_dt[4])
#define MPI_UINT16_T          (&sim_dt[5])
#define MPI_INT32_T           (&sim_dt[6])
#define MPI_UINT32_T          (&sim_dt[7])
#define MPI_INT64_T           (&sim_dt[18])
#define MPI_UINT64_T          (&sim_dt[19])
#define MPI_AINT              (&sim_dt[18])
#define MPI_COUNT             (&sim_dt[18])
#define MPI_OFFSET            (&sim_dt[18])

extern struct sim_op_s sim_ops[16];
#define MPI_MAX  (&sim_ops[0])
#define MPI_MIN  (&sim_ops[1])
#define MPI_SUM  (&sim_ops[2])
#define MPI_PROD (&sim_ops[3])
#define MPI_LAND (&sim_ops[4])
#define MPI_LOR  (&sim_ops[5])
#define MPI_BAND (&sim_ops[6])
#define MPI_BOR  (&sim_ops[7])
#define MPI_LXOR (&sim_ops[8])
#define MPI_BXOR (&sim_ops[9])

enum { MPI_SUCCESS = 0, MPI_ERR_BUFFER = 1, MPI_ERR_COUNT = 2, MPI_ERR_TYPE = 3, MPI_ERR_TAG = 4, MPI_ERR_COMM = 5,
       MPI_ERR_RANK = 6, MPI_ERR_REQUEST = 7, MPI_ERR_ROOT = 8, MPI_ERR_GROUP = 9, MPI_ERR_OP = 10, MPI_ERR_ARG = 13,
       MPI_ERR_TRUNCATE = 15, MPI_ERR_OTHER = 16, MPI_ERR_IN_STATUS = 18, MPI_ERR_PENDING = 19, MPI_ERR_LASTCODE = 99 };
#define MPI_ANY_SOURCE (-1)
#define MPI_PROC_NULL  (-2)
#define MPI_ANY_TAG    (-1)
#define MPI_ROOT       (-4)
#define MPI_UNDEFINED  (-32766)
#define MPI_TAG_UB     1
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_MAX_ERROR_STRING   256
#define MPI_BSEND_OVERHEAD 128
enum { MPI_IDENT = 0, MPI_CONGRUENT = 1, MPI_SIMILAR = 2, MPI_UNEQUAL = 3 };
enum { MPI_THREAD_SINGLE, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE };
#define MPI_COMM_TYPE_SHARED 1
#define MPI_VERSION 3
#define MPI_SUBVERSION 1

int MPI_Init(int*, char***); int MPI_Init_thread(int*, char***, int, int*); int MPI_Initialized(int*); int MPI_Finalized(int*);
int MPI_Finalize(void); int MPI_Abort(MPI_Comm, int); double MPI_Wtime(void); double MPI_Wtick(void);
int MPI_Get_processor_name(char*, int*); int MPI_Error_string(int, char*, int*); int MPI_Error_class(int, int*);
int MPI_Query_thread(int*);

int MPI_Comm_rank(MPI_Comm, int*); int MPI_Comm_size(MPI_Comm, int*); int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*); int MPI_Comm_create(MPI_Comm, MPI_Group, MPI_Comm*);
int MPI_Comm_create_group(MPI_Comm, MPI_Group, int, MPI_Comm*); int MPI_Comm_free(MPI_Comm*); int MPI_Comm_group(MPI_Comm, MPI_Group*);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int*); int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler); int MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler*);
int MPI_Comm_test_inter(MPI_Comm, int*); MPI_Fint MPI_Comm_c2f(MPI_Comm); MPI_Comm MPI_Comm_f2c(MPI_Fint);
int MPI_Comm_set_name(MPI_Comm, const char*); int MPI_Comm_get_name(MPI_Comm, char*, int*);
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm*); int MPI_Comm_get_attr(MPI_Comm, int, void*, int*);
int MPI_Group_incl(MPI_Group, int, const int*, MPI_Group*); int MPI_Group_excl(MPI_Group, int, const int*, MPI_Group*);
int MPI_Group_free(MPI_Group*); int MPI_Group_size(MPI_Group, int*); int MPI_Group_rank(MPI_Group, int*);
int MPI_Group_translate_ranks(MPI_Group, int, const int*, MPI_Group, int*); int MPI_Group_union(MPI_Group, MPI_Group, MPI_Group*);
int MPI_Group_intersection(MPI_Group, MPI_Group, MPI_Group*); int MPI_Group_difference(MPI_Group, MPI_Group, MPI_Group*);
int MPI_Group_compare(MPI_Group, MPI_Group, int*);

int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Rsend(const void*, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Bsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*); int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irsend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*); int MPI_Ibsend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*); int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Sendrecv_replace(void*, int, MPI_Datatype, int, int, int, int, MPI_Comm, MPI_Status*);
int MPI_Send_init(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*); int MPI_Recv_init(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Start(MPI_Request*); int MPI_Startall(int, MPI_Request*); int MPI_Request_free(MPI_Request*); int MPI_Cancel(MPI_Request*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*); int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*); int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Get_elements(const MPI_Status*, MPI_Datatype, int*); int MPI_Test_cancelled(const MPI_Status*, int*);
int MPI_Wait(MPI_Request*, MPI_Status*); int MPI_Waitall(int, MPI_Request*, MPI_Status*); int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*);
int MPI_Waitsome(int, MPI_Request*, int*, int*, MPI_Status*); int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*); int MPI_Testany(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Testsome(int, MPI_Request*, int*, int*, MPI_Status*);

int MPI_Barrier(MPI_Comm); int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Scatterv(const void*, const int*, const int*, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Alltoallv(const void*, const int*, const int*, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Alltoallw(const void*, const int*, const int*, const MPI_Datatype*, void*, const int*, const int*, const MPI_Datatype*, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm); int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce_scatter_block(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request*); int MPI_Ibcast(void*, int, MPI_Datatype, int, MPI_Comm, MPI_Request*);
int MPI_Iallgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm, MPI_Request*);
int MPI_Ialltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm, MPI_Request*);
int MPI_Ialltoallv(const void*, const int*, const int*, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm, MPI_Request*);
int MPI_Iallreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request*);

int MPI_Type_size(MPI_Datatype, int*); int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype*); int MPI_Type_commit(MPI_Datatype*);
int MPI_Type_free(MPI_Datatype*); int MPI_Type_get_extent(MPI_Datatype, MPI_Aint*, MPI_Aint*);
int MPI_Get_address(const void*, MPI_Aint*); int MPI_Op_free(MPI_Op*); int MPI_Pcontrol(const int, ...);

#ifdef __cplusplus
}
#endif
#endif
