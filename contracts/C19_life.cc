// Life cycle of an epoch in the wave detector: created, finished, held by local work and nested epochs, terminated.
// Every unit given to an epoch goes through produceConsume (its contract: C19_wave), recorded here call by call.
// @pre term/pre.h
// @source vt/pipe/signal/signal_holder.cc vt/termination/termination.cc vt/termination/term_state.cc vt/termination/term_action.cc vt/termination/epoch_dependency.cc vt/termination/epoch_label.cc vt/termination/dijkstra-scholten/comm.cc vt/termination/dijkstra-scholten/ds.cc vt/collective/tree/tree.cc vt/context/context.cc vt/epoch/epoch_manip.cc
// @symsource @vtc/abs/std/string_inst.cc
// @opt stl_model=True
// @replace TerminationDetector14produceConsume => vtc_units
// @replace TerminationDetector14propagateEpoch => vtc_propagate
// @replace TerminationDetector14maybePropagate => vtc_maybe
// @assume hang reporting is switched off (vt_no_detect_hang, no vt_print_no_progress)
#include "vtc.h"
#include "../vtc/abs/term/env.h"
using namespace vtc_env;
// contracts of the callees: units are only recorded, and a submission leaves the epoch's own counts alone
struct Unit { uint64_t e; CT n; bool p; NodeType node; }; static Unit log_[16]; static int nlog, nprop, nmaybe; static TermState* propagated;
extern "C" void vtc_units(TD*, EpochType e, CT n, bool p, NodeType node) { log_[nlog++]=Unit{e.get(),n,p,node}; }
extern "C" bool vtc_propagate(TD*, TermState* s) { nprop++; propagated=s; return true; }
extern "C" void vtc_maybe(TD*) { nmaybe++; }
// units produced / consumed on an epoch so far; natively from the detector's own counters (any epoch counts everything)
static CT nat(EpochType e, bool p) { auto& t=*td; if (e==any_epoch_sentinel) return p?t.any_epoch_state_.l_prod:t.any_epoch_state_.l_cons;
  if (t.isDS(e)) { auto i=t.term_.find(e); return i==t.term_.end()?0:p?i->second.lD:i->second.lC; } auto i=t.epoch_state_.find(e); return i==t.epoch_state_.end()?0:p?i->second.l_prod:i->second.l_cons; }
static CT units(EpochType e, bool p) { if (!vtc_symbolic()) return nat(e,p); CT s=0; for (int k=0;k<nlog;k++) s+=vtc::ite((log_[k].p==p)&((e==any_epoch_sentinel)|(log_[k].e==e.get())),log_[k].n,CT{0}); return s; }
static CT made(EpochType e) { return units(e,true); } static CT used(EpochType e) { return units(e,false); } static CT net(EpochType e) { return made(e)-used(e); }
static EpochType E; static bool terminated; static bool is_term(uint64_t e) { return terminated & (e==E.get()); }
static TD& setup() { bool root=vtc::choose(2); auto& t=make(root,1); nlog=nprop=nmaybe=0; propagated=nullptr; terminated=false; Window::is=is_term; if (!vtc_symbolic()) { t.any_epoch_state_.num_children_=9; } return t; }
static EpochType dsEpoch(const char* n) { auto e=EpochType{vtc::any<U>(n)}; if (!vtc_symbolic()) { e=EM::generateEpoch(true,vtc::any_in<NodeType>("owner",0,2),epoch::eEpochCategory::DijkstraScholtenEpoch); EM::setSeq(e,vtc::any_in<U>("seq",1,3)); }
  REQUIRES(e!=any_epoch_sentinel); REQUIRES(e!=no_epoch); REQUIRES(EM::isRooted(e)); REQUIRES(EM::category(e)==epoch::eEpochCategory::DijkstraScholtenEpoch); return e; }
#define H(f) ((void*)&TD::f)
CONTRACT(finished_once) {
  auto& t=setup(); E=waveEpoch("epoch"); bool known=vtc::choose(2); if (known) any_state(t.findOrCreateState(E,false),1); if (!vtc_symbolic()&&known) t.findOrCreateState(E,false).deps_=1; else if (!vtc_symbolic()) t.findOrCreateState(E,false).deps_=1; Snap a(known?t.findOrCreateState(E,false):*new TermState(E,false,false,1)); bool owner=EM::isRooted(E)&&EM::node(E)==t.this_node_;
  t.finishedEpoch(E); auto& s=t.findOrCreateState(E,true); ENSURES("initial-unit-consumed", used(E)==1+(vtc_symbolic()?0:a.lc)); ENSURES("epoch-released-for-detection", s.epoch_active_&s.local_terminated_); if (vtc_symbolic()) ENSURES("owner-of-a-rooted-epoch-holds-the-enclosing-one", made(any_epoch_sentinel)==(int)owner);
  if (vtc_symbolic()) { Snap b=a; b.act=b.loc=true; ENSURES("submitted-iff-ready", nprop==(int)b.ready(1)); }
  t.finishedEpoch(E); ENSURES("finishing-again-consumes-nothing", used(E)==1+(vtc_symbolic()?0:a.lc));
}
CONTRACT(local_work_holds) {
  auto& t=setup(); int k=vtc::choose(3); E=k==0?any_epoch_sentinel:k==1?waveEpoch("epoch"):dsEpoch("epoch"); bool known=k==1&&vtc::choose(2); if (known) any_state(t.findOrCreateState(E,false),1);
  any_state(t.any_epoch_state_,1); any_state(t.hang_,1); if (!vtc_symbolic()) { t.any_epoch_state_.local_terminated_=false; t.hang_.local_terminated_=false; if (known) t.findOrCreateState(E,false).local_terminated_=false; }
  Snap a(t.any_epoch_state_), h(t.hang_); CT d0=known?t.findOrCreateState(E,false).deps_:0; auto p0=made(E), c0=used(E);
  t.addLocalDependency(E);
  ENSURES("local-work-counts-as-a-unit", (made(E)==p0+1)&(used(E)==c0)); ENSURES("nothing-is-submitted-while-work-is-pending", !t.any_epoch_state_.readySubmitParent() & !t.hang_.readySubmitParent()); ENSURES("held", (t.any_epoch_state_.deps_==a.deps+1)&(t.hang_.deps_==h.deps+1));
  if (k==1) ENSURES("epoch-held", (t.findOrCreateState(E,true).deps_==d0+1) && !t.findOrCreateState(E,true).readySubmitParent());
  t.releaseLocalDependency(E);
  ENSURES("released-exactly-once", (made(E)==p0+1)&(used(E)==c0+1)&(t.any_epoch_state_.deps_==a.deps)&(t.hang_.deps_==h.deps)); if (k==1) { ENSURES("epoch-released", t.findOrCreateState(E,true).deps_==d0); if (vtc_symbolic()) ENSURES("detection-resumes-when-nothing-holds-the-epoch", nmaybe==(int)(d0==0)); } else ENSURES("no-epoch-state-invented", t.epoch_state_.size()==0);
}
CONTRACT(disable_enable) {
  auto& t=setup(); int k=vtc::choose(2); E=k==0?any_epoch_sentinel:waveEpoch("epoch"); auto& s=k==0?t.any_epoch_state_:t.findOrCreateState(E,false); any_state(s,1); Snap a(s); t.disableTD(E); ENSURES("disabled-epoch-is-never-submitted", !s.readySubmitParent()); t.enableTD(E); ENSURES("enabling-restores", Snap(s)==a);
}
// nesting: an epoch holds its successors from the moment the dependency is added until it terminates
CONTRACT(nested_holds_enclosing) {
  auto& t=setup(); E=vtc::choose(2)?dsEpoch("inner"):waveEpoch("inner"); bool ods=vtc::choose(2); auto O=ods?dsEpoch("outer"):waveEpoch("outer"); REQUIRES(E!=O); terminated=vtc::choose(2);
  t.addDependency(E,O); if (terminated) { ENSURES("terminated-epoch-holds-nothing", (made(O)==0)&(used(O)==0)&(t.epoch_state_.find(O)==t.epoch_state_.end())&(t.term_.find(O)==t.term_.end())); return; }
  ENSURES("enclosing-epoch-gets-one-unit", (made(O)==1)&(used(O)==0)); if (!ods) ENSURES("enclosing-epoch-not-submitted", (t.findOrCreateState(O,true).deps_==1) && !t.findOrCreateState(O,true).readySubmitParent()); ENSURES("dependency-recorded", t.getEpochDep(E)->getSuccessors().count(O)==1);
  t.addDependency(E,O); ENSURES("adding-again-changes-nothing", (made(O)==1)&(used(O)==0)); if (!ods) ENSURES("held-once", t.findOrCreateState(O,true).deps_==1);
  t.getEpochDep(E)->clearSuccessors(); ENSURES("enclosing-epoch-released-exactly-once", (made(O)==1)&(used(O)==1)); if (!ods) ENSURES("enclosing-epoch-free", t.findOrCreateState(O,true).deps_==0); ENSURES("no-successor-left", !t.getEpochDep(E)->hasSuccessor());
  t.getEpochDep(E)->clearSuccessors(); ENSURES("released-only-once", used(O)==1);
}
// the transitive reduction: a dependency implied by the new one is given up, with its unit
CONTRACT(implied_dependency_dropped) {
  auto& t=setup(); E=waveEpoch("inner"); auto M=waveEpoch("middle"), O=waveEpoch("outer"); REQUIRES(E!=M); REQUIRES(E!=O); REQUIRES(M!=O);
  bool mo=vtc::choose(2); t.addDependency(E,O); if (mo) t.addDependency(M,O); t.addDependency(E,M); auto const& s=t.getEpochDep(E)->getSuccessors();
  ENSURES("held-by-the-nearest", s.count(M)==1); ENSURES("implied-dependency-given-up", (s.count(O)==0)==mo); ENSURES("units-follow-the-dependencies", (net(M)==1)&(net(O)==1)&(t.findOrCreateState(M,true).deps_==1)&(t.findOrCreateState(O,true).deps_==1));
}

static ParentEpochCapture none() { return ParentEpochCapture{no_epoch}; }
static int sent_to_all(void* h) { int n=0; for (int k=0;k<nsent;k++) n+=(sent[k].han==h)&sent[k].bcast&!sent[k].to_self&sent[k].term&(msg<TermMsg>(k)->new_epoch==E); return n; }
static EpochType rootedHere(TD& t) { auto e=waveEpoch("epoch"); REQUIRES(EM::isRooted(e)); REQUIRES(EM::node(e)==t.this_node_); return e; }
// created, nested in another epoch or not, finished, terminated: every unit it gave out comes back
CONTRACT(collective_life) {
  auto& t=setup(); E=waveEpoch("epoch"); REQUIRES(!EM::isRooted(E)); bool nest=vtc::choose(2); auto O=waveEpoch("outer"); REQUIRES(O!=E);
  t.initializeCollectiveEpoch(E,"",nest?ParentEpochCapture{O}:none()); auto& s=t.findOrCreateState(E,false);
  ENSURES("born-with-one-unit-here-and-one-on-everything", (net(E)==1)&(net(any_epoch_sentinel)==(nest?3:2))); ENSURES("not-detected-before-it-is-finished", !s.readySubmitParent()&!s.epoch_active_); ENSURES("enclosing-epoch-held", net(O)==(nest?1:0)); ENSURES("creation-is-local", nsent==0);
  t.finishedEpoch(E); ENSURES("finishing-returns-its-unit", net(E)==0); ENSURES("enclosing-epoch-still-held", net(O)==(nest?1:0)); ENSURES("detection-begins", t.findOrCreateState(E,false).epoch_active_&t.findOrCreateState(E,false).local_terminated_);
  bool root=vtc::choose(2); auto nt=Window::nterm; t.epochTerminated(E,root?TD::Root:TD::NonRoot); terminated=true;
  ENSURES("window-told-once", (Window::nterm==nt+1)&(Window::term_e==E.get())); ENSURES("enclosing-epoch-released", net(O)==0); ENSURES("all-units-returned", (net(E)==0)&(net(any_epoch_sentinel)==0));
  if (root) { ENSURES("root-defers-cleanup", (t.epoch_state_.find(E)!=t.epoch_state_.end())&(njobs==1)); jobs[0].run(jobs[0].fn); } ENSURES("state-dropped", (t.epoch_state_.find(E)==t.epoch_state_.end())&(t.epoch_ready_.find(E)==t.epoch_ready_.end())&(njobs==(int)root));
  ENSURES("later-steps-return-nothing-more", net(any_epoch_sentinel)==0);
}
CONTRACT(rooted_wave_life) {
  auto& t=setup(); E=rootedHere(t); bool nest=vtc::choose(2); auto O=waveEpoch("outer"); REQUIRES(O!=E); REQUIRES(!EM::isRooted(O));
  t.initializeRootedWaveEpoch(E,nest?ParentEpochCapture{O}:none(),""); auto& s=t.findOrCreateState(E,false);
  ENSURES("every-other-node-told", (nsent==1) && sent_to_all(H(makeRootedHandler))==1); ENSURES("window-activated", (Window::nact==1)&(Window::act_e==E.get())); ENSURES("born-with-one-unit", net(E)==1); ENSURES("not-detected-before-it-is-finished", !s.readySubmitParent()); ENSURES("enclosing-epoch-held", net(O)==(nest?1:0));
  t.finishedEpoch(E); ENSURES("finishing-returns-its-unit", net(E)==0); ENSURES("everything-held-while-it-lives", net(any_epoch_sentinel)==(nest?2:1)); 
  t.epochTerminated(E,TD::Root); ENSURES("window-told-once", (Window::nterm==1)&(Window::term_e==E.get())); ENSURES("all-units-returned", (net(E)==0)&(net(O)==0)&(net(any_epoch_sentinel)==0));
}
CONTRACT(rooted_wave_elsewhere) {
  auto& t=setup(); E=waveEpoch("epoch"); REQUIRES(EM::isRooted(E)); REQUIRES(EM::node(E)!=t.this_node_); auto* m=new TermMsg(E); TD::makeRootedHandler(m);
  ENSURES("window-activated", (Window::nact==1)&(Window::act_e==E.get())); ENSURES("takes-part-at-once-holding-nothing", (net(E)==0)&t.findOrCreateState(E,false).epoch_active_&t.findOrCreateState(E,false).local_terminated_); ENSURES("only-the-owner-holds-everything", net(any_epoch_sentinel)==0);
  if (vtc_symbolic()) ENSURES("told-to-submit", nprop==(int)t.findOrCreateState(E,false).readySubmitParent()); auto* f=new TermMsg(E); TD::epochTerminatedHandler(f); ENSURES("window-told-once", (Window::nterm==1)&(Window::term_e==E.get())); ENSURES("all-units-returned", (net(E)==0)&(net(any_epoch_sentinel)==0)); ENSURES("state-dropped", t.epoch_state_.find(E)==t.epoch_state_.end());
}
CONTRACT(rooted_ds_life) {
  auto& t=setup(); E=dsEpoch("epoch"); REQUIRES(EM::node(E)==t.this_node_); bool nest=vtc::choose(2); auto O=waveEpoch("outer"); REQUIRES(!EM::isRooted(O));
  t.initializeRootedDSEpoch(E,nest?ParentEpochCapture{O}:none(),""); ENSURES("creation-is-local", nsent==0); ENSURES("born-with-one-unit-here-and-one-on-everything", (net(E)==1)&(net(any_epoch_sentinel)==(nest?3:2))); ENSURES("this-node-is-its-root", t.term_.find(E)!=t.term_.end() && t.getDSTerm(E)->hasParent()); ENSURES("enclosing-epoch-held", net(O)==(nest?1:0));
  ENSURES("no-wave-state", t.epoch_state_.find(E)==t.epoch_state_.end()); ENSURES("enclosing-epoch-held", net(O)==(nest?1:0));
  if (!vtc_symbolic()) { t.finishedEpoch(E); } else { t.finishedEpoch(E); ENSURES("finishing-returns-its-unit", net(E)==0); t.epochTerminated(E,TD::Root); }
  ENSURES("window-told-once", (Window::nterm==1)&(Window::term_e==E.get())); ENSURES("enclosing-epoch-released", net(O)==0); ENSURES("all-units-returned", net(any_epoch_sentinel)==0);
  ENSURES("root-defers-cleanup", (t.term_.find(E)!=t.term_.end())&(njobs>=1)); for (int k=0;k<njobs && k<4;k++) jobs[k].run(jobs[k].fn); ENSURES("state-dropped", t.term_.find(E)==t.term_.end()); ENSURES("all-units-returned", net(any_epoch_sentinel)==0);
}
// which detector a rooted epoch gets
CONTRACT(rooted_choice) {
  auto& t=setup(); bool fd=vtc::choose(2), fw=vtc::choose(2), ds=vtc::choose(2); auto* c=theConfig(); c->vt_term_rooted_use_ds=fd; c->vt_term_rooted_use_wave=fw; bool want=(ds|fd)&!fw; if (fd&fw) vtc_expect_abort(1);
  E=want?dsEpoch("epoch"):rootedHere(t); REQUIRES(EM::node(E)==t.this_node_); Epochs::next=E.get(); auto e=t.makeEpochRooted("",UseDS{ds},none()); c->vt_term_rooted_use_ds=c->vt_term_rooted_use_wave=false; ENSURES("conflicting-configuration-refused", !(fd&fw)); ENSURES("epoch-is-the-allocated-one", e==E); ENSURES("detector-as-requested", (t.term_.find(E)!=t.term_.end())==want && (t.epoch_state_.find(E)!=t.epoch_state_.end())==!want);
}
// asking about an epoch
CONTRACT(status) {
  auto& t=setup(); E=vtc::choose(2)?dsEpoch("epoch"):waveEpoch("epoch"); terminated=vtc::choose(2); bool remote=EM::isRooted(E)&&EM::node(E)!=t.this_node_; bool asked=vtc::choose(2); if (asked) t.epoch_wait_status_.insert(E); auto s=t.testEpochTerminated(E);
  ENSURES("terminated-iff-the-window-says-so", (s==TermStatusEnum::Terminated)==terminated); if (!terminated) ENSURES("remote-iff-owned-elsewhere", (s==TermStatusEnum::Remote)==remote);
  bool ask=remote&!terminated&!asked; ENSURES("owner-asked-at-most-once", nsent==(int)ask); if (ask) { auto* m=msg<TermTerminatedMsg>(0); ENSURES("question-to-the-owner", (sent[0].dest==EM::node(E))&(sent[0].han==H(inquireEpochTerminated))&(m->getEpoch()==E)&(m->getFromNode()==t.this_node_)); ENSURES("waiting", t.epoch_wait_status_.count(E)==1); t.testEpochTerminated(E); ENSURES("owner-asked-at-most-once", nsent==1); }
  ENSURES("asking-changes-no-count", (made(any_epoch_sentinel)==0)&(used(any_epoch_sentinel)==0));
}
CONTRACT(question_answered) {
  auto& t=setup(); E=waveEpoch("epoch"); REQUIRES(EM::isRooted(E)); REQUIRES(EM::node(E)==t.this_node_); auto from=vtc::any_in<NodeType>("from",0,32766); bool already=vtc::choose(2); terminated=already; auto n0=net(any_epoch_sentinel); t.inquireTerminated(E,from);
  if (!already) { ENSURES("not-answered-before-termination", (nsent==0)&(nruns==0)); terminated=true; t.queueActions(E); } for (int k=0;k<nruns && k<4;k++) TermAction::runActions(static_cast<TermAction::ActionMsg*>(runs[k].msg));
  ENSURES("answered-once-when-terminated", (nsent==1)&(sent[0].han==H(replyEpochTerminated))&(sent[0].dest==from)); auto* m=msg<TermTerminatedReplyMsg>(0); ENSURES("answer-names-the-epoch", (m->getEpoch()==E)&m->isTerminated()); ENSURES("all-units-returned", net(any_epoch_sentinel)==n0);
}
CONTRACT(question_not_owner) { auto& t=setup(); E=waveEpoch("epoch"); REQUIRES(EM::isRooted(E)); REQUIRES(EM::node(E)!=t.this_node_); vtc_expect_abort(1); t.inquireTerminated(E,0); ENSURES("only-the-owner-answers", false); }
CONTRACT(answer_received) {
  auto& t=setup(); E=waveEpoch("epoch"); REQUIRES(EM::isRooted(E)); REQUIRES(EM::node(E)!=t.this_node_); t.epoch_wait_status_.insert(E); auto* m=new TermTerminatedReplyMsg(E,true); TD::replyEpochTerminated(m);
  ENSURES("window-told-once", (Window::nterm==1)&(Window::term_e==E.get())); ENSURES("no-longer-waiting", t.epoch_wait_status_.count(E)==0); ENSURES("someone-elses-epoch-held-nothing-here", (net(any_epoch_sentinel)==0)&(net(E)==0));
}
// the stack of current epochs
CONTRACT(epoch_stack) {
  auto& t=setup(); int d=1+vtc::choose(3); EpochType e[4]; e[0]=any_epoch_sentinel; for (int k=1;k<=d;k++) { e[k]=EpochType{vtc::any<U>("pushed")}; REQUIRES(e[k]!=no_epoch); auto before=t.getEpoch(); ENSURES("current-is-the-last-pushed", before==e[k-1]); t.pushEpoch(e[k]); ENSURES("pushed-becomes-current", t.getEpoch()==e[k]); }
  for (int k=d;k>0;k--) { bool named=vtc::choose(2); auto r=t.popEpoch(named?e[k]:no_epoch); ENSURES("pop-returns-to-the-previous", t.getEpoch()==e[k-1]); if (named) ENSURES("pop-returns-the-popped-epoch", r==e[k]); }
  ENSURES("back-at-the-bottom", t.epoch_stack_.size()==1);
}
CONTRACT(epoch_stack_mismatch) { auto& t=setup(); auto e=EpochType{vtc::any<U>("pushed")}, f=EpochType{vtc::any<U>("popped")}; REQUIRES((e!=no_epoch)&(f!=no_epoch)&(e!=f)); t.pushEpoch(e); vtc_expect_abort(1); t.popEpoch(f); ENSURES("popping-another-epoch-refused", false); }
