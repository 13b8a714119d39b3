// The rest of the detector's environment, for the contract's own translation unit: a live detector over a tree of any
// shape at this node, configuration with hang reporting off, and message memory by malloc.
#pragma once
#include "vtc.h"
#include "vtc_ctx.h"
#include "vt/termination/termination.h"
#include "vt/configs/arguments/app_config.h"
#include "vt/pool/pool.h"
#include <cstdlib>
#include <new>
namespace vtc_env { inline vt::term::TerminationDetector* td=nullptr; alignas(64) inline unsigned char cfg[sizeof(vt::arguments::AppConfig)]; alignas(64) inline unsigned char pool[sizeof(vt::pool::Pool)]; }
namespace vt {
term::TerminationDetector* theTerm() { return vtc_env::td; }
arguments::AppConfig* theConfig() { return reinterpret_cast<arguments::AppConfig*>(vtc_env::cfg); }
pool::Pool* thePool() { return reinterpret_cast<pool::Pool*>(vtc_env::pool); }
namespace pool { std::byte* Pool::alloc(size_t const& n, size_t o) { return static_cast<std::byte*>(std::malloc(n+o)); } void Pool::dealloc(std::byte* p) { std::free(p); } }
namespace term { ParentEpochCapture::ParentEpochCapture() : epoch_(theTerm()->getEpoch()) {} }
}
namespace vtc_env {
using namespace vt; using namespace vt::term; using CT=TermCounterType; using TD=TerminationDetector; using EM=epoch::EpochManip; using U=EpochType::ImplType;
static CT const lim=1ll<<40;
inline CT anyC(const char* n) { return vtc_symbolic()?vtc::any_in<CT>(n,0,lim):vtc::any_in<CT>(n,0,2); }
// a detector at any node of any tree: its rank, whether it is the root, its parent and how many children it has
inline TD& make(bool root, NodeType kids) {
  auto* c=reinterpret_cast<arguments::AppConfig*>(cfg); c->vt_no_detect_hang=true; c->vt_print_no_progress=false; c->vt_hang_freq=1024; c->vt_epoch_graph_on_hang=false; c->vt_term_rooted_use_ds=false; c->vt_term_rooted_use_wave=false;
  nsent=njobs=nruns=0; Window::term_e=Window::act_e=0; Window::nterm=Window::nact=0; Window::is=nullptr;
  vtc_make_context(0,1); td=static_cast<TD*>(std::malloc(sizeof(TD))); new (td) TD();
  auto me=vtc::any_in<NodeType>("this node",0,32766); td->this_node_=me; vtc_ctx->thisNode_=me; td->is_root_=root; td->parent_=root?vt::uninitialized_destination:vtc::any_in<NodeType>("parent",0,32766);
  { auto& v=td->children_._M_impl; auto* p=static_cast<NodeType*>(std::malloc(sizeof(NodeType)*static_cast<std::size_t>(kids))); v._M_start=p; v._M_finish=v._M_end_of_storage=p+kids; } td->any_epoch_state_.num_children_=kids; td->hang_.num_children_=kids; return *td;
}
// any content of an epoch's state
inline void any_state(TermState& s, NodeType kids) {
  s.l_prod=anyC("produced"); s.l_cons=anyC("consumed"); s.g_prod1=anyC("g produced"); s.g_cons1=anyC("g consumed"); s.g_prod2=anyC("last wave produced"); s.g_cons2=anyC("last wave consumed");
  s.constant_count=vtc::any_in<int>("constant",0,1<<30); s.local_terminated_=vtc::any<bool>("local terminated"); s.epoch_active_=vtc::any<bool>("active"); s.term_detected_=vtc::any<bool>("detected"); s.deps_=vtc_symbolic()?vtc::any_in<CT>("local dependencies",0,lim):vtc::any_in<CT>("local dependencies",0,1);
  s.num_children_=kids; s.recv_child_count_=vtc_symbolic()?vtc::any_in<int>("children heard",0,32767):vtc::any_in<int>("children heard",0,kids); REQUIRES(s.recv_child_count_<=kids);
  auto w=vtc_symbolic()?vtc::any_in<CT>("wave",0,lim):vtc::any_in<CT>("wave",0,3); s.cur_wave_=w; s.submitted_wave_=w-(vtc::any<bool>("submitted")?0:1);
}
struct Snap { CT lp,lc,g1p,g1c,g2p,g2c,deps,wave,sub; int recv; bool act,loc,det;
  explicit Snap(TermState& s) : lp(s.l_prod),lc(s.l_cons),g1p(s.g_prod1),g1c(s.g_cons1),g2p(s.g_prod2),g2c(s.g_cons2),deps(s.deps_),wave(s.cur_wave_),sub(s.submitted_wave_),recv(s.recv_child_count_),act(s.epoch_active_),loc(s.local_terminated_),det(s.term_detected_) {}
  bool operator==(Snap const& o) const { return (lp==o.lp)&(lc==o.lc)&(g1p==o.g1p)&(g1c==o.g1c)&(g2p==o.g2p)&(g2c==o.g2c)&(deps==o.deps)&(wave==o.wave)&(sub==o.sub)&(recv==o.recv)&(act==o.act)&(loc==o.loc)&(det==o.det); }
  bool ready(NodeType kids) const { return act&loc&(deps==0)&(recv==kids)&(sub==wave-1)&!det; }
};
inline EpochType waveEpoch(const char* n) { auto e=EpochType{vtc::any<U>(n)}; 
  if (!vtc_symbolic()) { bool r=vtc::choose(2); e=EM::generateEpoch(r,vtc::any_in<NodeType>("owner",0,2),epoch::eEpochCategory::NoCategoryEpoch); EM::setSeq(e,vtc::any_in<U>("seq",1,3)); }
  REQUIRES(e!=any_epoch_sentinel); REQUIRES(e!=no_epoch); REQUIRES(!EM::isRooted(e) | (EM::category(e)!=epoch::eEpochCategory::DijkstraScholtenEpoch)); return e; }
// messages this node sent, by handler
inline int count(void* h) { int n=0; for (int k=0;k<nsent;k++) n+=(sent[k].han==h); return n; }
template <typename M> M* msg(int k) { return static_cast<M*>(sent[k].msg); }
}
