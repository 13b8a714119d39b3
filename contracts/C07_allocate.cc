// Epoch windows: allocation hands out a terminated epoch of the window and makes exactly that one active.
// The interval set is used through its contract (proved in C08); the allocation loop is covered for any number of rounds.
// @source vt/epoch/epoch_manip.cc vt/epoch/epoch_window.cc vt/context/context.cc
// @absinc window
// @opt stl_model=True
// @opt loops=1
// @assume allocation: partial correctness (the search ends because the counter runs through the whole range, contract counter_*, and the window is not empty)
#include "vtc.h"
#include "vtc_ctx.h"
#include "vt/epoch/epoch_window.h"
#include "vt/epoch/epoch_manip.h"
#include <new>
using namespace vt; using namespace vt::epoch; using EM=EpochManip;
using U=EpochType::ImplType;
static bool rooted; 
static EpochType anyArch() {
  rooted=vtc::choose(2); auto c=static_cast<eEpochCategory>(vtc::any_in<int8_t>("cat",0,3));
  auto node=vtc::any<NodeType>("node"); REQUIRES(node!=uninitialized_destination);
  return EM::generateEpoch(rooted,node,c);
}
static U top() { return ((1ull<<(rooted?epoch_seq_root_num_bits:epoch_seq_coll_num_bits))-1); }
alignas(16) static unsigned char wbuf[sizeof(EpochWindow)];
// a window of an arbitrary archetype, with any of its epochs active and the allocation counter anywhere
static EpochWindow& window(EpochType arch) {
  auto& w=*new (wbuf) EpochWindow(arch); U a=*arch;
#ifdef VTC_SYMBOLIC
  w.terminated_epochs_.in=vtc::any_array<uint8_t>("terminated",~0ull);
  w.terminated_epochs_.n=vtc::any<uint64_t>("terminated-count");
  w.total_terminated_=vtc::any<uint64_t>("total");
  U cur=vtc::any<U>("counter"); REQUIRES((cur>=a+1)&(cur<=a+top()-1));
  w.next_epoch_->cur_=cur;
#else
  auto n=vtc::any_in<unsigned>("n",0,6); U at=vtc::choose(2)?a+1:a+top()-5; w.next_epoch_->cur_=at;
  for (unsigned k=0;k<n;k++) w.activateEpoch(EpochType{at+vtc::any_in<U>("off",0,4)});
#endif
  return w;
}
static U val(EpochWindow& w, const char* n) {
#ifdef VTC_SYMBOLIC
  U v=vtc::any<U>(n); REQUIRES(v!=~0ull); return v;
#else
  return w.next_epoch_->cur_+vtc::any_in<U>(n,0,8)-3;
#endif
}
CONTRACT(allocate) {
  auto arch=anyArch(); auto& w=window(arch); U q=val(w,"q");
  REQUIRES(w.getSize()!=0);
#ifdef VTC_SYMBOLIC
  REQUIRES(!w.terminated_epochs_.has(q) | ((q>*arch)&(q<*arch+top())));      // members are epochs of the window
#endif
  bool oq=w.isTerminated(EpochType{q}); auto n=w.getSize(), tot=w.getTotalTerminated();
  auto e=w.allocateNewEpoch();
  ENSURES("allocated-epoch-is-of-the-window", (*e>*arch)&(*e<*arch+top())&(EM::isRooted(e)==rooted));
  ENSURES("allocated-epoch-was-terminated", vtc::implies(q==*e,oq));
  ENSURES("allocated-epoch-is-active", !w.isTerminated(e));
  ENSURES("allocation-changes-no-other-epoch", vtc::implies(q!=*e,w.isTerminated(EpochType{q})==oq));
  ENSURES("allocation-takes-one", (w.getSize()==n-1)&(w.getTotalTerminated()==tot));
  U nx=w.next_epoch_->get();
  ENSURES("search-resumes-after-the-allocated-epoch", nx==(*e==*arch+top()-1?*arch+1:*e+1));
}
CONTRACT(allocate_refused_when_exhausted) {
  auto arch=anyArch(); auto& w=window(arch);
#ifdef VTC_SYMBOLIC
  w.terminated_epochs_.n=0;
#else
  w.terminated_epochs_.clear();
#endif
  vtc_expect_abort(1); w.allocateNewEpoch(); ENSURES("exhausted-window-refuses", false);
}
CONTRACT(terminate) {
  auto arch=anyArch(); auto& w=window(arch); U q=val(w,"q"), v=val(w,"v"); REQUIRES((v>*arch)&(v<*arch+top()));
  bool oq=w.isTerminated(EpochType{q}), ov=w.isTerminated(EpochType{v}); auto n=w.getSize(), tot=w.getTotalTerminated();
  w.setEpochTerminated(EpochType{v});
  ENSURES("terminated-epoch-is-terminated", w.isTerminated(EpochType{v}));
  ENSURES("termination-changes-no-other-epoch", vtc::implies(q!=v,w.isTerminated(EpochType{q})==oq));
  ENSURES("termination-counted", (w.getTotalTerminated()==tot+1)&(w.getSize()==n+(ov?0:1)));
}
CONTRACT(activate) {
  auto arch=anyArch(); auto& w=window(arch); U q=val(w,"q"), v=val(w,"v"); REQUIRES((v>*arch)&(v<*arch+top()));
  bool oq=w.isTerminated(EpochType{q}), ov=w.isTerminated(EpochType{v}); auto n=w.getSize(), tot=w.getTotalTerminated();
  w.activateEpoch(EpochType{v});
  ENSURES("activated-epoch-is-active", !w.isTerminated(EpochType{v}));
  ENSURES("activation-changes-no-other-epoch", vtc::implies(q!=v,w.isTerminated(EpochType{q})==oq));
  ENSURES("activation-counts", (w.getTotalTerminated()==tot)&(w.getSize()==n-(ov?1:0)));
}
CONTRACT(foreign_epoch_refused) {
  auto arch=anyArch(); bool r1=rooted; auto& w=window(arch); auto other=anyArch(); REQUIRES(other!=arch); (void)r1;
  U s=vtc::any<U>("seq"); REQUIRES(s<=top()); EM::setSeq(other,s);
  vtc_expect_abort(1); w.activateEpoch(other); ENSURES("epoch-of-another-window-is-refused", false);
}
CONTRACT(counter_cycle) {
  U lo=vtc::any<U>("lo"), hi=vtc::any<U>("hi"), c=vtc::any<U>("c"); REQUIRES((lo<=c)&(c<=hi));
  adt::RangedCounter<U> r(lo,hi); ENSURES("counter-starts-at-the-low-bound", (r.get()==lo)&((U)r==lo));
  r.cur_=c; auto old=r++; 
  ENSURES("counter-steps-through-the-range", ((U)old==c)&(r.get()==(c==hi?lo:c+1)));
  auto o2=r--; ENSURES("counter-steps-back", (r.get()==c)&((U)o2==(c==hi?lo:c+1)));
  ++r; --r; ENSURES("counter-inverse", r.get()==c);
  --r; ENSURES("counter-wraps-down", (r.get()==(c==lo?hi:c-1)));
}
