// Stand-in for MPI: the processes are run one after the other (the last rank first), a message is kept until it is received.
#pragma once
#include <stdlib.h>
#include <string.h>
#include <vector>
#include "vf.h"
typedef int MPI_Comm;
typedef int MPI_Datatype;  // its size is the value's last byte
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR, bytes; } MPI_Status;
typedef int MPI_Request;
enum { MPI_COMM_WORLD = 91, MPI_SUCCESS = 0, MPI_ANY_SOURCE = -1, MPI_ANY_TAG = -2, MPI_ERR_TRUNCATE = 15, MPI_REQUEST_NULL = 0 };
enum { MPI_CHAR = 0x101, MPI_BYTE = 0x201, MPI_INT = 0x304, MPI_UNSIGNED = 0x404, MPI_FLOAT = 0x504, MPI_DOUBLE = 0x608, MPI_LONG = 0x708, MPI_UNSIGNED_LONG = 0x808 };
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
struct vf_message {
  int from, to, tag, type, bytes;
  char *data;
};
static int vf_mpi_rank = 0, vf_mpi_size = 1, vf_mpi_on = 0;
static std::vector<vf_message> vf_mpi_queue;
static inline int MPI_Init(int *, char ***) { vf_mpi_on = 1; return MPI_SUCCESS; }
static inline int MPI_Init_thread(int *, char ***, int want, int *got) { *got = want; vf_mpi_on = 1; return MPI_SUCCESS; }
static inline int MPI_Finalize() { vf_mpi_on = 0; return MPI_SUCCESS; }
static inline int MPI_Comm_rank(MPI_Comm, int *r) { *r = vf_mpi_rank; return MPI_SUCCESS; }
static inline int MPI_Comm_size(MPI_Comm, int *s) { *s = vf_mpi_size; return MPI_SUCCESS; }
static inline int MPI_Barrier(MPI_Comm) { return MPI_SUCCESS; }
static inline double MPI_Wtime() { return 0; }
static inline int MPI_Send(const void *buf, int count, MPI_Datatype type, int dest, int tag, MPI_Comm)
{
  vf_message m = {vf_mpi_rank, dest, tag, type, count * (type & 255), (char *)malloc(count * (type & 255) + 1)};
  vf_check(vf_mpi_on && dest >= 0 && dest < vf_mpi_size, "messages go to a running process");
  memcpy(m.data, buf, m.bytes);
  vf_mpi_queue.push_back(m);
  return MPI_SUCCESS;
}
static inline int MPI_Ssend(const void *b, int c, MPI_Datatype t, int d, int g, MPI_Comm w) { return MPI_Send(b, c, t, d, g, w); }
static inline int MPI_Bsend(const void *b, int c, MPI_Datatype t, int d, int g, MPI_Comm w) { return MPI_Send(b, c, t, d, g, w); }
static inline int MPI_Isend(const void *b, int c, MPI_Datatype t, int d, int g, MPI_Comm w, MPI_Request *r) { *r = 0; return MPI_Send(b, c, t, d, g, w); }
static inline int MPI_Recv(void *buf, int count, MPI_Datatype type, int source, int tag, MPI_Comm, MPI_Status *status)
{
  for (size_t k = 0; k < vf_mpi_queue.size(); ++k) {
    vf_message m = vf_mpi_queue[k];
    if (m.to != vf_mpi_rank || (source != MPI_ANY_SOURCE && m.from != source) || (tag != MPI_ANY_TAG && m.tag != tag)) continue;
    vf_check(m.type == type, "a message is received as the type it was sent as");
    vf_check(m.bytes <= count * (type & 255), "a message fits the buffer it is received in");
    if (m.bytes > count * (type & 255)) vf_assume(0);
    memcpy(buf, m.data, m.bytes);
    free(m.data);
    vf_mpi_queue.erase(vf_mpi_queue.begin() + k);
    if (status) *status = MPI_Status{m.from, m.tag, 0, m.bytes};
    return MPI_SUCCESS;
  }
  // the sender has already ended
  vf_check(0, "every message waited for is sent");
  vf_assume(0);
  return 1;
}
static inline int MPI_Irecv(void *b, int c, MPI_Datatype t, int s, int g, MPI_Comm w, MPI_Request *r) { *r = 0; return MPI_Recv(b, c, t, s, g, w, 0); }
static inline int MPI_Wait(MPI_Request *, MPI_Status *) { return MPI_SUCCESS; }
static inline int MPI_Waitall(int, MPI_Request *, MPI_Status *) { return MPI_SUCCESS; }
static inline int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) { *n = s->bytes / (t & 255); return MPI_SUCCESS; }
