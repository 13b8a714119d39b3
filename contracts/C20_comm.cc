// Dijkstra-Scholten termination: how the algorithm's steps reach other nodes and the detector.
// @pre term/pre.h
// @source vt/pipe/signal/signal_holder.cc vt/termination/termination.cc vt/termination/term_state.cc vt/termination/term_action.cc vt/termination/epoch_dependency.cc vt/termination/epoch_label.cc vt/termination/dijkstra-scholten/comm.cc vt/termination/dijkstra-scholten/ds.cc vt/collective/tree/tree.cc vt/context/context.cc vt/epoch/epoch_manip.cc
// @symsource @vtc/abs/std/string_inst.cc
// @opt stl_model=True
#include "vtc.h"
#include "../vtc/abs/term/env.h"
using namespace vtc_env; using ds::StateDS; using ds::AckMsg;
static EpochType E; static EpochType dsEpoch() { auto e=EpochType{vtc::any<U>("epoch")}; if (!vtc_symbolic()) { e=EM::generateEpoch(true,vtc::any_in<NodeType>("owner",0,2),epoch::eEpochCategory::DijkstraScholtenEpoch); EM::setSeq(e,vtc::any_in<U>("seq",1,3)); }
  REQUIRES(e!=any_epoch_sentinel); REQUIRES(e!=no_epoch); REQUIRES(EM::isRooted(e)); REQUIRES(EM::category(e)==epoch::eEpochCategory::DijkstraScholtenEpoch); return e; }
static TD& setup() { auto& t=make(false,1); E=dsEpoch(); t.any_epoch_state_.deps_=1; return t; }
static NodeType other(TD& t, const char* n) { auto x=vtc_symbolic()?vtc::any_in<NodeType>(n,0,32766):vtc::any_in<NodeType>(n,0,3); REQUIRES(x!=t.this_node_); return x; }
static CT cnt(const char* n) { return vtc_symbolic()?vtc::any_in<CT>(n,1,lim):vtc::any_in<CT>(n,1,3); }
// counting a unit of a rooted epoch is a step of its algorithm on the node it went to or came from
CONTRACT(units_reach_the_algorithm) {
  auto& t=setup(); auto n=cnt("units"); bool self=vtc::choose(2); auto to=self?uninitialized_destination:other(t,"peer"); t.produce(E,n,to); auto* d=t.getDSTerm(E); ENSURES("state-made-as-non-root", (t.term_.size()==1)&!d->hasParent());
  ENSURES("sent-unit-owed", (d->D==(self?0:n))&(d->lD==(self?n:0))); ENSURES("counted-on-everything", (t.any_epoch_state_.l_prod==n)&(t.any_epoch_state_.l_cons==0)); ENSURES("nothing-sent", nsent==0);
  if (self) { t.consume(E,n); ENSURES("local-unit-returned", (d->lC==n)&(d->D==0)); ENSURES("balanced-on-everything", t.any_epoch_state_.l_cons==n); ENSURES("no-wave-state", t.epoch_state_.size()==0); }
}
CONTRACT(received_unit_acknowledged) {
  auto& t=setup(); auto n=cnt("units"); auto from=other(t,"from"); bool owed=vtc::choose(2); if (owed) { t.produce(E,cnt("own"),other(t,"peer")); } t.consume(E,n,from); auto* d=t.getDSTerm(E);
  ENSURES("acknowledged-at-once-unless-work-is-outstanding", nsent==(int)!owed); if (!owed) { auto* m=msg<AckMsg>(0); ENSURES("acknowledgement-to-the-sender-marked-and-uncounted", (sent[0].dest==from)&(sent[0].han==(void*)&StateDS::acknowledgeHan)&sent[0].term&(m->getEpoch()==E)&(m->getCount()==n)); }
  ENSURES("engaged-iff-work-is-outstanding", d->isEngaged()==owed); if (owed) ENSURES("sender-is-the-parent", d->parent==from); ENSURES("cleanup-scheduled-on-disengaging", njobs==(int)!owed);
}
CONTRACT(acknowledgement_delivered) {
  auto& t=setup(); auto n=cnt("units"); auto to=other(t,"peer"), from=other(t,"from"); auto m=cnt("received"); t.produce(E,n,to); t.consume(E,m,from); auto* a=new AckMsg(E,to,t.this_node_,n); StateDS::acknowledgeHan(a);
  ENSURES("last-acknowledgement-releases-the-parent", (nsent==1) && (sent[0].dest==from)&(msg<AckMsg>(0)->getCount()==m)); ENSURES("disengaged", !t.getDSTerm(E)->isEngaged()); ENSURES("cleanup-scheduled-on-disengaging", njobs==1);
  bool again=vtc::choose(2); if (again) { t.produce(E,n,to); t.consume(E,m,from); } jobs[0].run(jobs[0].fn); ENSURES("state-dropped-unless-engaged-again", (t.term_.find(E)==t.term_.end())==!again); if (again) ENSURES("engagement-survives-a-late-cleanup", t.getDSTerm(E)->isEngaged()&(t.getDSTerm(E)->D==n));
}
CONTRACT(root_terminates) {
  auto& t=setup(); REQUIRES(EM::node(E)==t.this_node_); t.initializeRootedDSEpoch(E,ParentEpochCapture{no_epoch},""); bool remote=vtc::choose(2); auto n=cnt("units"); auto to=other(t,"peer"); if (remote) t.produce(E,n,to);
  t.finishedEpoch(E); if (remote) { ENSURES("not-terminated-while-a-message-is-unacknowledged", Window::nterm==0); auto k=cnt("acknowledged"); REQUIRES(k<=n); auto* a=new AckMsg(E,to,t.this_node_,k); StateDS::acknowledgeHan(a); ENSURES("terminated-iff-all-acknowledged", (Window::nterm==1)==(k==n)); REQUIRES(k==n); }
  ENSURES("window-told-once", (Window::nterm==1)&(Window::term_e==E.get())); ENSURES("all-units-returned", t.any_epoch_state_.l_prod==t.any_epoch_state_.l_cons+(remote?n:0)); ENSURES("no-acknowledgement-from-the-root", nsent==0);
  for (int k=0;k<njobs && k<4;k++) jobs[k].run(jobs[k].fn); ENSURES("state-dropped", t.term_.find(E)==t.term_.end());
}
CONTRACT(request_needs_no_answer) { auto& t=setup(); auto* a=new AckMsg(E,other(t,"peer"),t.this_node_,cnt("units")); StateDS::requestAckHan(a); ENSURES("bookkeeping-unchanged", (nsent==0)&(t.getDSTerm(E)->D==0)&!t.getDSTerm(E)->isEngaged()); }
CONTRACT(request_sent) { auto& t=setup(); auto to=other(t,"peer"); auto n=cnt("units"); StateDS::requestAck(E,to,n); auto* m=msg<AckMsg>(0); ENSURES("request-marked-and-uncounted", (nsent==1)&sent[0].term&(sent[0].dest==to)&(sent[0].han==(void*)&StateDS::requestAckHan)&(m->getEpoch()==E)&(m->getCount()==n)); }
CONTRACT(kinds) { auto& t=setup(); auto x=EpochType{vtc::any<U>("any epoch")}; if (!vtc_symbolic() && vtc::choose(2)) x=vtc::choose(2)?E:vtc::choose(2)?no_epoch:any_epoch_sentinel; bool real=(x!=any_epoch_sentinel)&(x!=no_epoch); bool r=t.isRooted(x); ENSURES("only-real-epochs-are-rooted", r==(real&EM::isRooted(x))); ENSURES("rooted-of-that-category", t.isDS(x)==(r&(EM::category(x)==epoch::eEpochCategory::DijkstraScholtenEpoch))); ENSURES("nothing-counted", (t.any_epoch_state_.l_prod==0)&(nsent==0)); }
