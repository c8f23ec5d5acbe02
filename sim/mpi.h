/* mpi.h of the in-process MPI simulator used by /verif (see DESIGN.md).
   Interface: the subset of MPI-3 that a distributed FFT library plausibly uses. */
#ifndef VF_SIM_MPI_H
#define VF_SIM_MPI_H
#include <stddef.h>
#include <stdint.h>
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#ifdef __cplusplus
extern "C" {
#endif

typedef struct vf_comm_t *MPI_Comm;
typedef struct vf_group_t *MPI_Group;
typedef struct vf_req_t *MPI_Request;
typedef struct vf_info_t *MPI_Info;
typedef struct vf_errh_t *MPI_Errhandler;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Fint;
typedef intptr_t MPI_Aint;
typedef long long MPI_Offset;
typedef long long MPI_Count;
typedef struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; long long vf_bytes; } MPI_Status;

extern struct vf_comm_t vf_comm_world_obj, vf_comm_self_obj;
extern struct vf_group_t vf_group_empty_obj;
#define MPI_COMM_WORLD (&vf_comm_world_obj)
#define MPI_COMM_SELF (&vf_comm_self_obj)
#define MPI_COMM_NULL ((MPI_Comm) 0)
#define MPI_GROUP_NULL ((MPI_Group) 0)
#define MPI_GROUP_EMPTY (&vf_group_empty_obj)
#define MPI_REQUEST_NULL ((MPI_Request) 0)
#define MPI_INFO_NULL ((MPI_Info) 0)
#define MPI_ERRHANDLER_NULL ((MPI_Errhandler) 0)
#define MPI_ERRORS_ARE_FATAL ((MPI_Errhandler) 1)
#define MPI_ERRORS_RETURN ((MPI_Errhandler) 2)
#define MPI_STATUS_IGNORE ((MPI_Status *) 0)
#define MPI_STATUSES_IGNORE ((MPI_Status *) 0)
#define MPI_IN_PLACE ((void *) 1)
#define MPI_BOTTOM ((void *) 0)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_ROOT (-3)
#define MPI_UNDEFINED (-32766)
#define MPI_SUCCESS 0
#define MPI_ERR_COMM 5
#define MPI_ERR_OTHER 15
#define MPI_TAG_UB 1
#define MPI_MAX_PROCESSOR_NAME 128
#define MPI_MAX_ERROR_STRING 256
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_COMM_TYPE_SHARED 0

enum { MPI_DATATYPE_NULL = 0, MPI_CHAR, MPI_SIGNED_CHAR, MPI_UNSIGNED_CHAR, MPI_BYTE, MPI_PACKED,
  MPI_SHORT, MPI_UNSIGNED_SHORT, MPI_INT, MPI_UNSIGNED, MPI_LONG, MPI_UNSIGNED_LONG,
  MPI_LONG_LONG, MPI_UNSIGNED_LONG_LONG, MPI_FLOAT, MPI_DOUBLE, MPI_LONG_DOUBLE,
  MPI_INT8_T, MPI_INT16_T, MPI_INT32_T, MPI_INT64_T, MPI_UINT8_T, MPI_UINT16_T, MPI_UINT32_T, MPI_UINT64_T,
  MPI_C_BOOL, MPI_CXX_BOOL, MPI_C_COMPLEX, MPI_C_DOUBLE_COMPLEX, MPI_AINT, MPI_OFFSET, MPI_COUNT,
  MPI_2INT, MPI_DOUBLE_INT, MPI_FLOAT_INT, MPI_LONG_INT, VF_NPREDEF };
#define MPI_LONG_LONG_INT MPI_LONG_LONG
#define MPI_C_FLOAT_COMPLEX MPI_C_COMPLEX
#define MPI_CXX_DOUBLE_COMPLEX MPI_C_DOUBLE_COMPLEX
#define MPI_CXX_FLOAT_COMPLEX MPI_C_COMPLEX
#define MPI_INTEGER MPI_INT
#define MPI_REAL MPI_FLOAT
#define MPI_DOUBLE_PRECISION MPI_DOUBLE
#define MPI_COMPLEX MPI_C_COMPLEX
#define MPI_DOUBLE_COMPLEX MPI_C_DOUBLE_COMPLEX
enum { MPI_OP_NULL = 0, MPI_MAX, MPI_MIN, MPI_SUM, MPI_PROD, MPI_LAND, MPI_BAND, MPI_LOR, MPI_BOR,
  MPI_LXOR, MPI_BXOR, MPI_MAXLOC, MPI_MINLOC };

int MPI_Init(int *, char ***);
int MPI_Init_thread(int *, char ***, int, int *);
int MPI_Initialized(int *);
int MPI_Finalized(int *);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void);
double MPI_Wtick(void);
int MPI_Get_processor_name(char *, int *);
int MPI_Error_string(int, char *, int *);
int MPI_Query_thread(int *);

int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Comm_dup(MPI_Comm, MPI_Comm *);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm *);
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm *);
int MPI_Comm_create(MPI_Comm, MPI_Group, MPI_Comm *);
int MPI_Comm_create_group(MPI_Comm, MPI_Group, int, MPI_Comm *);
int MPI_Comm_free(MPI_Comm *);
int MPI_Comm_group(MPI_Comm, MPI_Group *);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int *);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Comm_set_name(MPI_Comm, const char *);
MPI_Comm MPI_Comm_f2c(MPI_Fint);
MPI_Fint MPI_Comm_c2f(MPI_Comm);

int MPI_Group_size(MPI_Group, int *);
int MPI_Group_rank(MPI_Group, int *);
int MPI_Group_incl(MPI_Group, int, const int *, MPI_Group *);
int MPI_Group_excl(MPI_Group, int, const int *, MPI_Group *);
int MPI_Group_union(MPI_Group, MPI_Group, MPI_Group *);
int MPI_Group_intersection(MPI_Group, MPI_Group, MPI_Group *);
int MPI_Group_difference(MPI_Group, MPI_Group, MPI_Group *);
int MPI_Group_translate_ranks(MPI_Group, int, const int *, MPI_Group, int *);
int MPI_Group_compare(MPI_Group, MPI_Group, int *);
int MPI_Group_free(MPI_Group *);

int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Rsend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Bsend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Issend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Irsend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Send_init(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Recv_init(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Start(MPI_Request *);
int MPI_Startall(int, MPI_Request *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Sendrecv_replace(void *, int, MPI_Datatype, int, int, int, int, MPI_Comm, MPI_Status *);
int MPI_Wait(MPI_Request *, MPI_Status *);
int MPI_Waitany(int, MPI_Request *, int *, MPI_Status *);
int MPI_Waitall(int, MPI_Request *, MPI_Status *);
int MPI_Waitsome(int, MPI_Request *, int *, int *, MPI_Status *);
int MPI_Test(MPI_Request *, int *, MPI_Status *);
int MPI_Testany(int, MPI_Request *, int *, int *, MPI_Status *);
int MPI_Testall(int, MPI_Request *, int *, MPI_Status *);
int MPI_Testsome(int, MPI_Request *, int *, int *, MPI_Status *);
int MPI_Cancel(MPI_Request *);
int MPI_Request_free(MPI_Request *);
int MPI_Probe(int, int, MPI_Comm, MPI_Status *);
int MPI_Iprobe(int, int, MPI_Comm, int *, MPI_Status *);
int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *);

int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm);
int MPI_Scatter(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Scatterv(const void *, const int *, const int *, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Alltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Alltoallv(const void *, const int *, const int *, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request *);
int MPI_Ibcast(void *, int, MPI_Datatype, int, MPI_Comm, MPI_Request *);
int MPI_Iallreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request *);
int MPI_Iallgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm, MPI_Request *);
int MPI_Iallgatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm, MPI_Request *);
int MPI_Ialltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm, MPI_Request *);
int MPI_Ialltoallv(const void *, const int *, const int *, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm, MPI_Request *);

int MPI_Type_size(MPI_Datatype, int *);
int MPI_Type_get_extent(MPI_Datatype, MPI_Aint *, MPI_Aint *);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_commit(MPI_Datatype *);
int MPI_Type_free(MPI_Datatype *);
#ifdef __cplusplus
}
#endif
#endif
