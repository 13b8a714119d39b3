// Actions registered on the termination of an epoch: each runs exactly once, after the termination, within the epoch it was registered in.
// @pre term/pre.h
// @source vt/pipe/signal/signal_holder.cc vt/termination/termination.cc vt/termination/term_state.cc vt/termination/term_action.cc vt/termination/epoch_dependency.cc vt/termination/epoch_label.cc vt/termination/dijkstra-scholten/comm.cc vt/termination/dijkstra-scholten/ds.cc vt/collective/tree/tree.cc vt/context/context.cc vt/epoch/epoch_manip.cc
// @symsource @vtc/abs/std/string_inst.cc
// @opt stl_model=True
#include "vtc.h"
#include "../vtc/abs/term/env.h"
#include "vt/termination/term_action.impl.h"
using namespace vtc_env;
static EpochType E, X; static bool done; static bool is_done(uint64_t e) { return done & (e==E.get()); }
static int ran[4]; static int consumed_then[4]; static EpochType in_epoch[4];
static CT units() { return td->findOrCreateState(X,false).l_prod-td->findOrCreateState(X,false).l_cons; }
static void runq() { for (int k=0;k<nruns && k<8;k++) { auto& r=runs[k]; if (!r.msg) continue; auto* m=static_cast<TermAction::ActionMsg*>(r.msg); r.msg=nullptr; ENSURES("actions-run-within-the-registering-epoch", (m->encapsulated_epoch==X)&(r.epoch==X.get())&(m->ep==E)); td->pushEpoch(EpochType{r.epoch}); TermAction::runActions(m); td->popEpoch(EpochType{r.epoch}); } }
static TD& setup() { auto& t=make(false,1); E=waveEpoch("epoch"); X=waveEpoch("registered in"); REQUIRES(E!=X); done=false; Window::is=is_done; for (auto& x : ran) x=0; t.pushEpoch(X); return t; }
static void finish(TD& t) { done=true; t.queueActions(E); }
static void add(TD& t, bool uniq, int k) { if (uniq) t.addActionUnique(E,[k]{ ran[k]++; }); else t.addAction(E,[k]{ ran[k]++; }); }
CONTRACT(registered_before) {
  auto& t=setup(); int n=vtc::choose(3); auto n0=units(); for (int k=0;k<n;k++) add(t,vtc::choose(2),k);
  ENSURES("pending-action-keeps-its-epoch-open", units()==n0+n); ENSURES("nothing-runs-before-termination", (nruns==0)&(ran[0]==0)&(ran[1]==0));
  finish(t); ENSURES("actions-are-deferred", (ran[0]==0)&(ran[1]==0)); runq();
  ENSURES("each-action-runs-exactly-once", (ran[0]==(n>0))&(ran[1]==(n>1))); ENSURES("epoch-released-once-per-action", units()==n0);
}
CONTRACT(registered_after) {
  auto& t=setup(); done=true; auto n0=units(); int n=1+vtc::choose(2); for (int k=0;k<n;k++) add(t,vtc::choose(2),k); ENSURES("pending-action-keeps-its-epoch-open", units()==n0+n); runq();
  ENSURES("each-action-runs-exactly-once", (ran[0]==1)&(ran[1]==(n>1))); ENSURES("epoch-released-once-per-action", units()==n0);
}
CONTRACT(registered_by_an_action) {
  auto& t=setup(); auto n0=units(); bool u=vtc::choose(2), u2=vtc::choose(2); bool pre=vtc::choose(2); if (pre) add(t,u,2);
  if (u) t.addActionUnique(E,[&t,u2]{ ran[0]++; add(t,u2,1); }); else t.addAction(E,[&t,u2]{ ran[0]++; add(t,u2,1); });
  finish(t); runq(); ENSURES("each-action-runs-exactly-once", (ran[0]==1)&(ran[1]==1)&(ran[2]==pre)); ENSURES("epoch-released-once-per-action", units()==n0);
}
CONTRACT(on_everything) {
  auto& t=setup(); int n=vtc::choose(3); for (int k=0;k<n;k++) { if (vtc::choose(2)) t.addAction(any_epoch_sentinel,[k]{ ran[k]++; }); else t.addAction([k]{ ran[k]++; }); } ENSURES("nothing-runs-before-termination", (ran[0]==0)&(ran[1]==0)); t.queueActions(any_epoch_sentinel); ENSURES("each-action-runs-exactly-once", (ran[0]==(n>0))&(ran[1]==(n>1))); t.queueActions(any_epoch_sentinel); ENSURES("never-a-second-time", (ran[0]==(n>0))&(ran[1]==(n>1)));
}
CONTRACT(on_everything_by_an_action) {
  auto& t=setup(); t.addAction([&t]{ ran[0]++; t.addAction([]{ ran[1]++; }); }); bool more=vtc::choose(2); if (more) t.addAction([]{ ran[2]++; });
  t.queueActions(any_epoch_sentinel); ENSURES("each-action-runs-exactly-once", (ran[0]==1)&(ran[2]==more)&(ran[1]<=1)); t.queueActions(any_epoch_sentinel); ENSURES("late-action-runs-at-the-next-termination-at-the-latest", ran[1]==1);
}
