// Wave termination detection: what one node does at every event, for any state of the counters, any place in the tree.
// @pre term/pre.h
// @source vt/pipe/signal/signal_holder.cc vt/termination/termination.cc vt/termination/term_state.cc vt/termination/term_action.cc vt/termination/epoch_dependency.cc vt/termination/epoch_label.cc vt/termination/dijkstra-scholten/comm.cc vt/termination/dijkstra-scholten/ds.cc vt/collective/tree/tree.cc vt/context/context.cc vt/epoch/epoch_manip.cc
// @symsource @vtc/abs/std/string_inst.cc
// @opt stl_model=True
// @assume hang reporting is switched off (vt_no_detect_hang, no vt_print_no_progress)
// @assume counters and waves stay below 2^40
#include "vtc.h"
#include "../vtc/abs/term/env.h"
using namespace vtc_env;
static NodeType anyKids() { return vtc_symbolic()?vtc::any_in<NodeType>("children",0,32767):vtc::any_in<NodeType>("children",0,1); }
// one of the three kinds of wave state: every epoch, hang detection, one particular epoch
static EpochType E; static TermState* S;
static void pick(TD& t, NodeType kids) {
  auto k=vtc::choose(3); if (k==0) { E=any_epoch_sentinel; S=&t.any_epoch_state_; } else if (k==1) { E=no_epoch; S=&t.hang_; } else { E=waveEpoch("epoch"); S=&t.findOrCreateState(E,false); }
  any_state(*S,kids);
}
#define H(f) ((void*)&TD::f)
CONTRACT(ready) { auto kids=anyKids(); TermState s(EpochType{5},kids); any_state(s,kids); Snap a(s); ENSURES("ready-iff-nothing-is-missing", s.readySubmitParent()==a.ready(kids)); ENSURES("asking-changes-nothing", Snap(s)==a); }
CONTRACT(propagate_inner) {
  auto kids=anyKids(); auto& t=make(false,kids); pick(t,kids); Snap a(*S); auto r=t.propagateEpoch(*S); Snap b(*S);
  ENSURES("submitted-iff-ready", r==a.ready(kids));
  if (r) { ENSURES("one-message-up-per-wave", nsent==1); auto& m=sent[0]; auto* c=msg<TermCounterMsg>(0);
    ENSURES("totals-of-the-subtree-sent-to-the-parent", (m.han==H(propagateEpochHandler))&(m.dest==t.parent_)&!m.bcast&(c->epoch==E)&(c->prod==a.g1p+a.lp)&(c->cons==a.g1c+a.lc));
    ENSURES("detector-traffic-is-marked-and-not-counted", m.term&(b.lp==a.lp)&(b.lc==a.lc));
    ENSURES("children-counts-start-over", (b.g1p==0)&(b.g1c==0)&(b.recv==0)&(b.sub==a.wave)&(b.wave==a.wave)); ENSURES("not-ready-again-in-this-wave", !S->readySubmitParent()); }
  else ENSURES("not-ready-does-nothing", (nsent==0)&(b==a));
  ENSURES("inner-node-never-decides", (b.det==a.det)&(Window::nterm==0));
}
CONTRACT(propagate_root) {
  auto kids=anyKids(); auto& t=make(true,kids); pick(t,kids); Snap a(*S); auto any0=Snap(t.any_epoch_state_); 
  if (E!=any_epoch_sentinel) t.any_epoch_state_.deps_=1; // keep the enclosing epoch still: its own step is this contract's other case
  auto r=t.propagateEpoch(*S); Snap b(*S); bool same=(a.g1p+a.lp==a.g1c+a.lc)&(a.g2p==a.g2c)&(a.g1p+a.lp==a.g2p);
  ENSURES("wave-ends-iff-ready", r==a.ready(kids));
  if (!r) { ENSURES("not-ready-does-nothing", (nsent==0)&(b==a)); return; }
  ENSURES("one-broadcast-per-wave", (nsent==1)&sent[0].bcast&!sent[0].to_self&sent[0].term); auto* m=msg<TermMsg>(0);
  ENSURES("terminates-iff-two-waves-agree-and-all-is-consumed", (sent[0].han==H(epochTerminatedHandler))==same); ENSURES("else-another-wave", (sent[0].han==H(epochContinueHandler))==!same); ENSURES("broadcast-names-the-epoch", m->new_epoch==E);
  ENSURES("decision-recorded", b.det==same);
  if (same) { ENSURES("never-decides-twice", !S->readySubmitParent()); if (E!=any_epoch_sentinel) ENSURES("the-epochs-window-is-told", (Window::nterm==1)&(Window::term_e==E.get())); }
  else { ENSURES("next-wave-announced", (m->wave==a.wave+1)&(b.wave==a.wave+1)&(b.sub==a.sub+1)); ENSURES("this-waves-totals-kept", (b.g2p==a.g1p+a.lp)&(b.g2c==a.g1c+a.lc)&(b.g1p==0)&(b.g1c==0)&(b.recv==0)&(b.lp==a.lp)&(b.lc==a.lc)); ENSURES("nothing-terminated", Window::nterm==0); }
}
// counting: every unit on the enclosing epoch, and on the epoch it belongs to
static void one_up(bool was_ready, EpochType e, CT p, CT c, const char* dummy) { (void)dummy; int n=0; bool ok=true;
  for (int k=0;k<nsent;k++) { auto* m=msg<TermCounterMsg>(k); if (m->epoch==e) { n++; ok&=(m->prod==p)&(m->cons==c)&(sent[k].dest==td->parent_)&(sent[k].han==H(propagateEpochHandler)); } }
  ENSURES("submitted-iff-ready-with-the-units-counted", (n==(int)was_ready)&ok); }
CONTRACT(produce_consume) {
  auto kids=anyKids(); auto& t=make(false,kids); any_state(t.any_epoch_state_,kids); Snap a(t.any_epoch_state_), h(t.hang_);
  auto k=vtc::choose(4); E=k==0?any_epoch_sentinel:k==1?no_epoch:waveEpoch("epoch"); bool part=k>=2; if (k==3) any_state(t.findOrCreateState(E,false),kids);
  TermState fresh(E,false,false,kids); Snap b(k==3?t.findOrCreateState(E,false):fresh);
  bool p=vtc::choose(2); auto n=anyC("units"); auto node=vtc::any_in<NodeType>("peer",-1,32766); if (p) t.produce(E,n,node); else t.consume(E,n,node);
  Snap a2(t.any_epoch_state_); ENSURES("every-unit-counts-on-the-enclosing-epoch", (a2.lp==a.lp+(p?n:0))&(a2.lc==a.lc+(p?0:n))); one_up(a.ready(kids),any_epoch_sentinel,a.g1p+a2.lp,a.g1c+a2.lc,"");
  if (part) { auto i=t.epoch_state_.find(E); ENSURES("epoch-known-from-its-first-unit-on", i!=t.epoch_state_.end()); if (i==t.epoch_state_.end()) return; Snap b2(i->second); ENSURES("unit-counts-on-its-epoch", (b2.lp==b.lp+(p?n:0))&(b2.lc==b.lc+(p?0:n))); one_up(b.ready(kids),E,b.g1p+b2.lp,b.g1c+b2.lc,""); }
  else ENSURES("no-other-epoch-touched", t.epoch_state_.size()==0);
  ENSURES("hang-detection-counts-separately", Snap(t.hang_)==h);
}
CONTRACT(child_reports) {
  auto kids=anyKids(); REQUIRES(kids>0); auto& t=make(false,kids); auto k=vtc::choose(4); E=k==0?any_epoch_sentinel:k==1?no_epoch:waveEpoch("epoch"); if (k==0) any_state(t.any_epoch_state_,kids); if (k==1) any_state(t.hang_,kids); if (k==3) any_state(t.findOrCreateState(E,false),kids);
  TermState fresh(E,false,false,kids); S=k==0?&t.any_epoch_state_:k==1?&t.hang_:k==3?&t.findOrCreateState(E,false):&fresh; Snap a(*S); REQUIRES(a.recv<kids); auto p=anyC("p"), c=anyC("c"); t.propagateEpochExternal(E,p,c);
  if (k==2) S=&t.findOrCreateState(E,false); Snap b(*S); Snap r=a; r.recv++; bool up=r.ready(kids);
  if (!up) ENSURES("childs-totals-added", (b.g1p==a.g1p+p)&(b.g1c==a.g1c+c)&(b.recv==a.recv+1)&(nsent==0)); else one_up(true,E,a.g1p+p+a.lp,a.g1c+c+a.lc,"");
  ENSURES("at-most-one-submission", nsent==(int)up); ENSURES("own-counts-unchanged", (b.lp==a.lp)&(b.lc==a.lc)&(b.deps==a.deps));
}
CONTRACT(child_report_overflow) { auto kids=anyKids(); auto& t=make(false,kids); auto& s=t.any_epoch_state_; any_state(s,kids); REQUIRES(s.recv_child_count_==kids); vtc_expect_abort(1); t.propagateEpochExternal(any_epoch_sentinel,0,0); ENSURES("more-reports-than-children-refused", false); }
// @bounded next_wave at most one particular epoch besides the one continued
CONTRACT(next_wave) {
  auto kids=anyKids(); auto& t=make(false,kids); pick(t,kids); Snap a(*S); REQUIRES(a.sub==a.wave); // this node already submitted for the current wave
  bool other=vtc::choose(2); auto F=waveEpoch("other"); TermState* f=nullptr; if (other) { REQUIRES(F!=E); f=&t.findOrCreateState(F,false); any_state(*f,kids); } if (E!=any_epoch_sentinel) t.any_epoch_state_.epoch_active_=false; if (E!=no_epoch) t.hang_.epoch_active_=false;
  CT f0=other?f->submitted_wave_:0; bool fr=other && Snap(*f).ready(kids); t.epochContinue(E,a.wave+1); Snap b(*S); Snap r=a; r.wave++; 
  ENSURES("wave-advances-by-one", b.wave==a.wave+1); one_up(r.ready(kids),E,a.g1p+a.lp,a.g1c+a.lc,""); ENSURES("own-counts-kept", (b.lp==a.lp)&(b.lc==a.lc)&(b.deps==a.deps)); if (other) ENSURES("every-ready-epoch-is-submitted", f->submitted_wave_==f0+(fr?1:0)); ENSURES("no-other-message", nsent==(int)r.ready(kids)+(int)fr);
}
CONTRACT(wave_out_of_order) { auto kids=anyKids(); auto& t=make(false,kids); pick(t,kids); auto w=anyC("announced"); REQUIRES(w!=S->cur_wave_+1); vtc_expect_abort(1); t.epochContinue(E,w); ENSURES("wave-out-of-order-refused", false); }
