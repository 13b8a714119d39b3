// Epoch manager: which window an epoch belongs to, and that new epochs have the requested kind.
// @source vt/epoch/epoch_manip.cc vt/epoch/epoch_window.cc vt/context/context.cc
// @opt stl_model=True
// @replace EpochWindow16allocateNewEpoch => vtc_allocate
#include "vtc.h"
#include "vtc_ctx.h"
#include "vt/epoch/epoch_window.h"
#include "vt/epoch/epoch_manip.h"
#include "vt/termination/term_common.h"
#include <new>
using namespace vt; using namespace vt::epoch; using EM=EpochManip; using U=EpochType::ImplType;
static U top(bool rooted) { return ((1ull<<(rooted?epoch_seq_root_num_bits:epoch_seq_coll_num_bits))-1); }
// contract of EpochWindow::allocateNewEpoch (C07_allocate): some epoch of the window's archetype
static unsigned allocs; static EpochWindow* last;
extern "C" EpochType vtc_allocate(EpochWindow* w) {
  allocs++; last=w; auto e=w->archetype_epoch_; auto s=vtc::any<U>("allocated"); REQUIRES((s>0)&(s<top(EM::isRooted(e)))); EM::setSeq(e,s); return e;
}
static eEpochCategory anyCat(const char* n) { return static_cast<eEpochCategory>(vtc::any_in<int8_t>(n,0,3)); }
static NodeType anyNode(const char* n) { auto x=vtc::any<NodeType>(n); REQUIRES(x!=uninitialized_destination); return x; }
#ifdef VTC_SYMBOLIC
using P=std::pair<const EpochType,std::unique_ptr<EpochWindow>>;
static void make(P* p) { auto k=EpochType{vtc::any<U>("key")}; auto a=k; EM::setSeq(a,0); REQUIRES(a==k);
  ::new ((void*)p) P(k,std::make_unique<EpochWindow>(k)); }
static void fill(EM& m) { vtc::lz::uhooks<P>::make=make; m.terminated_epochs_.l.lazy=true; }
#else
static void fill(EM& m) { auto n=vtc::any_in<unsigned>("n",0,3); for (unsigned k=0;k<n;k++) m.getNextCollectiveEpoch(anyCat("c")); }
#endif
alignas(16) static unsigned char buf[sizeof(EM)];
#define SETUP vtc_make_context(vtc::any_in<int>("rank",0,32766),32767); auto& m=*new (buf) EM(); fill(m); allocs=0;
CONTRACT(next_rooted) {
  SETUP auto c=anyCat("cat"); auto n=anyNode("root");
  auto e=m.getNextRootedEpoch(c,n);
  ENSURES("rooted-epoch-has-requested-kind", EM::isRooted(e)&(EM::node(e)==n)&(EM::category(e)==c));
  ENSURES("rooted-epoch-sequence", (EM::seq(e)>0)&(EM::seq(e)<top(true)));
  if (vtc_symbolic()) ENSURES("one-epoch-allocated", allocs==1);
  else ENSURES("allocated-epoch-is-active-and-single", !m.getTerminatedWindow(e)->isTerminated(e));
}
CONTRACT(next_rooted_here) {
  SETUP auto c=anyCat("cat");
  auto e=m.getNextRootedEpoch(c);
  ENSURES("rooted-epoch-names-this-node", EM::isRooted(e)&(EM::node(e)==theContext()->getNode())&(EM::category(e)==c));
  if (vtc_symbolic()) ENSURES("one-epoch-allocated", allocs==1);
  else { auto* w=m.getTerminatedWindow(e); ENSURES("one-epoch-allocated", w->getSize()==top(true)-2); }
}
CONTRACT(next_collective) {
  SETUP auto c=anyCat("cat");
  auto e=m.getNextCollectiveEpoch(c);
  ENSURES("collective-epoch-has-requested-kind", (!EM::isRooted(e))&(EM::category(e)==c)&(EM::seq(e)>0));
  if (vtc_symbolic()) ENSURES("one-epoch-allocated", allocs==1);
}
CONTRACT(window_of_epoch) {
  SETUP auto r=vtc::choose(2); auto c=anyCat("cat"); auto n=anyNode("node"); auto a=EM::generateEpoch(r,n,c); auto e=a;
  auto s=vtc::any<U>("seq"), s2=vtc::any<U>("seq2"); REQUIRES((s<=top(r))&(s2<=top(r))); EM::setSeq(e,s); REQUIRES(e!=term::any_epoch_sentinel);
  auto e2=a; EM::setSeq(e2,s2); REQUIRES(e2!=term::any_epoch_sentinel);
  auto* w=m.getTerminatedWindow(e);
  ENSURES("window-is-of-the-epochs-archetype", w->archetype_epoch_==a);
  ENSURES("archetype-keeps-all-but-sequence", m.getArchetype(e)==a);
  ENSURES("one-window-per-archetype", m.getTerminatedWindow(e2)==w);
  auto r3=vtc::choose(2); auto c3=anyCat("cat3"); auto n3=anyNode("node3"); auto a3=EM::generateEpoch(r3,n3,c3); 
  if (a3!=a) ENSURES("archetypes-do-not-share-windows", m.getTerminatedWindow(a3)!=w);
}
CONTRACT(fresh_window) {
  // a new window: every sequence number from one up to the last but one is terminated (reusable), no other epoch is
  auto r=vtc::choose(2); auto c=anyCat("cat"); auto n=anyNode("node"); auto a=EM::generateEpoch(r,n,c); auto e=a;
  auto s=vtc::any<U>("seq"); REQUIRES(s<=top(r)); EM::setSeq(e,s);
  EpochWindow w(e); U q=vtc::choose(2)?vtc::any<U>("q"):*a+vtc::any_in<U>("near",0,4);
  ENSURES("fresh-window-holds-its-epochs", w.isTerminated(EpochType{q})==((q>*a)&(q<*a+top(r))));
  ENSURES("fresh-window-size", (w.getSize()==top(r)-1)&(w.getTotalTerminated()==0));
  ENSURES("fresh-window-ends", (*w.getFirst()==*a+1)&(*w.getLast()==*a+top(r)-1));
  ENSURES("allocation-starts-inside", (w.next_epoch_->get()==*a+1));
}
CONTRACT(fresh_window_allocate) {
  auto r=vtc::choose(2); auto c=anyCat("cat"); auto n=anyNode("node"); auto a=EM::generateEpoch(r,n,c);
  EpochWindow w(a); auto v=EpochType{*a+1};
  w.activateEpoch(v); U q=vtc::any<U>("q");
  ENSURES("activating-takes-exactly-that-epoch", w.isTerminated(EpochType{q})==((q>*a+1)&(q<*a+top(r))));
  w.setEpochTerminated(v);
  ENSURES("terminating-gives-it-back", w.isTerminated(EpochType{q})==((q>*a)&(q<*a+top(r))));
  ENSURES("total-terminated", w.getTotalTerminated()==1);
}
