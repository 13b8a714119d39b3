// A live context for functions that ask "which node am I": the real Context class constructed over
// stand-ins for the four MPI calls its constructor makes (any rank, any size).
#pragma once
#include "vtc.h"
#include "vt/context/context.h"
#include <new>
static int vtc_rank=0, vtc_size=1;
extern "C" {
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* o) { *o=c; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm, int* n) { *n=vtc_size; return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm, int* n) { *n=vtc_rank; return MPI_SUCCESS; }
int MPI_Comm_free(MPI_Comm*) { return MPI_SUCCESS; }
}
alignas(16) static unsigned char vtc_ctx_buf[sizeof(vt::ctx::Context)];
static vt::ctx::Context* vtc_ctx=nullptr;
namespace vt { ctx::Context* theContext() { return vtc_ctx; } }
static inline void vtc_make_context(int rank, int size) {
  vtc_rank=rank; vtc_size=size; vtc_ctx = new (vtc_ctx_buf) vt::ctx::Context(false, MPI_Comm{});
}
