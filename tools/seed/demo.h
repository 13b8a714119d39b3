// Helper of a demonstration: exit status 0 iff every CHECK holds on the real code.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <vector>
#include <set>
#include <map>
#include <memory>
#include <tuple>
#include <unistd.h>
static int demo_bad=0;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s\n", #c); demo_bad=1; } } while(0)
#define DEMO_END std::fflush(stdout); _exit(demo_bad);
#ifdef DEMO_CONTEXT
#include "vt/context/context.h"
static int demo_rank=0, demo_size=1;
extern "C" {
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* o) { *o=c; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm, int* n) { *n=demo_size; return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm, int* n) { *n=demo_rank; return MPI_SUCCESS; }
int MPI_Comm_free(MPI_Comm*) { return MPI_SUCCESS; }
}
static vt::ctx::Context* demo_ctx=nullptr;
namespace vt { ctx::Context* theContext() { return demo_ctx; } }
static void demo_context(int rank, int size) { demo_rank=rank; demo_size=size; alignas(16) static unsigned char b[sizeof(vt::ctx::Context)]; demo_ctx=new (b) vt::ctx::Context(false, MPI_Comm{}); }
#endif
