// Scatter along the spanning tree: every node is handed its own piece, once, whoever scatters.
// @pre scatter/pre.h
// @source vt/collective/scatter/scatter.cc vt/collective/tree/tree.cc vt/context/context.cc
// @opt stl_model=True
// @bounded scattered at most seven nodes and pieces of at most three bytes symbolically, forty nodes natively
#include "vtc.h"
#include "vtc_ctx.h"
#include "vt/collective/scatter/scatter.h"
#include "vt/collective/scatter/scatter.impl.h"
#include <cstdlib>
using namespace vt; using namespace vtc_env; using vt::collective::scatter::Scatter; using vt::collective::scatter::ScatterMsg;
namespace vtc_env { alignas(64) inline unsigned char pool[sizeof(vt::pool::Pool)]; inline std::size_t given[64]; inline std::byte* block[64]; inline int nblocks=0; }
namespace vt { pool::Pool* thePool() { return reinterpret_cast<pool::Pool*>(vtc_env::pool); }
namespace pool { std::byte* Pool::alloc(size_t const& n, size_t o) { auto* p=static_cast<std::byte*>(std::malloc(n+o)); block[nblocks]=p; given[nblocks++]=o; return p; } void Pool::dealloc(std::byte* p) { std::free(p); } size_t Pool::remainingSize(std::byte* const p) const { for (int k=nblocks-1;k>=0;k--) if (block[k]==p) return given[k]; ENSURES("asked-of-a-message", false); return 0; } } }
static Scatter* at[64]; static int P, me, E; static int got[64]; static unsigned char val[64][4]; struct Piece { unsigned char b[4]; };
static void go(int n) { me=n; vtc_ctx->thisNode_=n; vtc_ctx->numNodes_=P; here=at[n]; }
static void mine(Piece* p) { got[me]++; for (int k=0;k<E;k++) ENSURES("own-piece", p->b[k]==val[me][k]); }
static void other(Piece*) { ENSURES("handler-as-asked", false); }
CONTRACT(scattered) { P=vtc_symbolic()?1+vtc::choose(7):vtc::any_in<int>("nodes",1,40); int r=vtc_symbolic()?(P==1?0:vtc::choose(P)):vtc::any_in<int>("who",0,39); REQUIRES(r<P); E=1+vtc::choose(3); nsent=0; nblocks=0; ran_han=-1; vtc_make_context(0,P); int filled[64];
  for (int n=0;n<P;n++) { vtc_ctx->thisNode_=n; vtc_ctx->numNodes_=P; at[n]=new Scatter(); got[n]=filled[n]=0; for (int k=0;k<E;k++) val[n][k]=vtc::any<uint8_t>("byte"); } go(r); nhans=0; auto h0=vt::auto_registry::vtc_makeScatterHandler<Piece,other>();
  here->scatter<Piece,mine>((std::size_t)P*E,(std::size_t)E,[](NodeType){ return (std::size_t)E; },[&](NodeType n, void* p){ filled[n]++; for (int k=0;k<E;k++) static_cast<unsigned char*>(p)[k]=val[n][k]; });
  ENSURES("starts-at-the-root", r==0 || ((nsent==1)&&(sent[0].dest==0)));
  for (int k=0;k<nsent;k++) { ENSURES("to-the-scatter-of-a-node", (sent[k].han==(void*)&Scatter::scatterHandler)&(sent[k].dest>=0)&(sent[k].dest<P)); go(sent[k].dest); Scatter::scatterHandler(sent[k].msg); }
  for (int n=0;n<P;n++) ENSURES("every-node-once", (got[n]==1)&(filled[n]==1)); ENSURES("one-message-per-edge", nsent==P-1+(r!=0)); ENSURES("with-that-handler", (ran_han!=h0)|(P==0)); }
