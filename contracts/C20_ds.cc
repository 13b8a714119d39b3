// Dijkstra-Scholten termination of rooted epochs: every step of the per-node algorithm, for any reachable state.
// @symsource @vtc/abs/std/string_inst.cc
// @assume the messages of an epoch are counted truthfully: a node is told of a message being processed only if it was sent, and of an acknowledgement only for messages it sent and still waits for
#include "vtc.h"
#include "vt/termination/dijkstra-scholten/ds.cc"
using namespace vt; using namespace vt::term; using CT=int64_t;
// what the algorithm tells the rest of the system
static int acks, terms, dis; static int ack_to[4]; static CT ack_n[4];
struct Rec { static void acknowledge(EpochType, NodeType p, CT n) { ack_to[acks&3]=p; ack_n[acks&3]=n; acks++; } static void rootTerminated(EpochType) { terms++; } static void disengage(EpochType) { dis++; } static void requestAck(EpochType, NodeType, CT) {} };
struct DS : ds::TermDS<Rec> { using ds::TermDS<Rec>::TermDS; };
enum Kind { Idle, Engaged, Root };
static CT const lim=1ll<<40;
static NodeType self_, par; static CT emc; static Kind kind;
static CT anyN(const char* n, CT lo) { return vtc_symbolic()?vtc::any_in<CT>(n,lo,lim):vtc::any_in<CT>(n,lo,lo+3); }
static NodeType anyNode(const char* n) { return vtc_symbolic()?vtc::any_in<NodeType>(n,0,32767):vtc::any_in<NodeType>(n,0,3); }
// any state the algorithm can be in between two events (the invariant every step below is shown to restore)
static void any_state(DS& t, Kind k) {
  kind=k; t.outstanding.clear(); t.parent=-1; t.C=t.ackedArbitrary=t.ackedParent=t.reqedParent=t.engagementMessageCount=t.processedSum=0; emc=0;
  t.D=anyN("unacknowledged",0); t.lD=anyN("local sent",0); t.lC=anyN("local done",0); REQUIRES(t.lC<=t.lD);
  if (k==Root) { t.outstanding.push_back(ds::AckRequest(self_,0)); t.ackedArbitrary=anyN("acked",0); t.processedSum=t.ackedArbitrary; }
  if (k==Engaged) { par=anyNode("parent"); emc=anyN("engaging messages",1); REQUIRES(par!=self_); t.parent=par; t.outstanding.push_back(ds::AckRequest(par,emc)); t.engagementMessageCount=emc; t.C=emc;
    t.ackedArbitrary=anyN("acked",0); t.ackedParent=anyN("acked to parent",0); t.reqedParent=t.ackedParent+emc; t.processedSum=t.C+t.ackedArbitrary+t.ackedParent;
    REQUIRES((t.D>0)|(t.lC<t.lD)); }   // an engaged node is waiting for something
  if (k==Root) REQUIRES((t.D>0)|(t.lC<t.lD));
}
static bool inv(DS& t, Kind k) {
  bool ok=(t.C==t.processedSum-(t.ackedArbitrary+t.ackedParent))&(t.lC<=t.lD)&(t.D>=0);
  if (k==Idle) return ok && (t.outstanding.size()==0) && ((t.C==0)&(t.parent==-1)&(t.engagementMessageCount==0)&(t.reqedParent==0)&(t.ackedParent==0)&(t.ackedArbitrary==0));
  if (t.outstanding.size()!=1) return false; auto& a=t.outstanding.front();
  if (k==Root) return ok && (a.pred==self_)&(a.count==0)&(t.C==0)&(t.engagementMessageCount==0)&(t.parent==-1)&(t.reqedParent==t.ackedParent);
  return ok && (a.pred==t.parent)&(a.count==t.engagementMessageCount)&(t.C==a.count)&(a.count>0)&(a.pred!=self_)&(a.pred>=0)&(t.reqedParent-t.ackedParent==a.count);
}
static bool waiting(DS& t) { return (t.D>0)|(t.lC<t.lD); }
#define SETUP self_=anyNode("self"); static DS* tp=nullptr; tp=new DS(EpochType{7},false,self_); DS& t=*tp; acks=terms=dis=0; auto k=static_cast<Kind>(vtc::choose(3)); any_state(t,k); auto D0=t.D, lD0=t.lD, lC0=t.lC;
CONTRACT(start) { bool root=vtc::choose(2); self_=anyNode("self"); auto* t=new DS(EpochType{7},root,self_); ENSURES("starts-idle-or-as-root", inv(*t,root?Root:Idle)); ENSURES("nothing-owed-at-start", (t->D==0)&(t->lC==0)&(t->lD==0)&!t->is_terminated); ENSURES("engaged-only-with-messages", !t->isEngaged()); delete t; }
CONTRACT(message_sent) {
  SETUP auto n=anyN("count",1); auto to=anyNode("to"); t.msgSent(to,n); bool s=to==self_;
  ENSURES("a-sent-message-is-owed-an-acknowledgement", t.D==D0+(s?0:n)); ENSURES("a-message-to-self-is-owed-locally", (t.lD==lD0+(s?n:0))&(t.lC==lC0)); ENSURES("sending-decides-nothing", (acks==0)&(terms==0)&(dis==0)); ENSURES("invariant-restored", inv(t,k)); delete tp;
}
CONTRACT(acknowledged) {
  SETUP auto n=anyN("count",1); REQUIRES(n<=D0); t.gotAck(n); bool last=((D0==n)&(lC0==lD0)&(k!=Idle));
  ENSURES("acknowledged-messages-are-no-longer-owed", t.D==D0-n); ENSURES("local-debt-unchanged", (t.lC==lC0)&(t.lD==lD0));
  ENSURES("root-terminates-iff-nothing-is-owed", terms==(int)(last&(k==Root))); ENSURES("terminated-flag", t.is_terminated==(terms==1));
  ENSURES("node-disengages-iff-nothing-is-owed", dis==(int)last); ENSURES("parent-acknowledged-on-disengaging", acks==(int)(last&(k==Engaged))); if (acks) ENSURES("parent-gets-its-engaging-messages-back", (ack_to[0]==par)&(ack_n[0]==emc));
  ENSURES("invariant-restored", inv(t,last?Idle:k)); if (!last&(k!=Idle)) ENSURES("still-waiting", waiting(t)); delete tp;
}
CONTRACT(remote_message_processed) {
  SETUP auto n=anyN("count",1); auto from=anyNode("from"); REQUIRES(from!=self_); auto sum0=t.processedSum; t.msgProcessed(from,n);
  bool w=(D0>0)|(lC0<lD0); ENSURES("debt-unchanged", (t.D==D0)&(t.lC==lC0)&(t.lD==lD0)); ENSURES("processing-a-message-never-terminates-the-root", terms==0);
  if (k==Idle) { // engages: the sender becomes the parent, acknowledged once this node has nothing left to wait for
    ENSURES("engaging-message-acknowledged-only-when-nothing-is-owed", (acks==(int)!w)&(dis==(int)!w)); if (w) ENSURES("sender-becomes-the-parent", inv(t,Engaged) && ((t.parent==from)&(t.engagementMessageCount==n)&t.isEngaged())); else ENSURES("invariant-restored", inv(t,Idle));
  } else { ENSURES("further-message-acknowledged-at-once", (acks==1)&(dis==0)); ENSURES("invariant-restored", inv(t,k)); ENSURES("engagement-unchanged", (t.engagementMessageCount==emc)&(k!=Engaged || t.parent==par)); }
  if (acks) ENSURES("every-processed-message-is-acknowledged-to-its-sender", (ack_to[0]==from)&(ack_n[0]==n)); delete tp;
}
CONTRACT(local_message_processed) {
  SETUP auto n=anyN("count",1); REQUIRES(lC0+n<=lD0); t.msgProcessed(self_,n); bool last=((D0==0)&(lC0+n==lD0)&(k!=Idle));
  ENSURES("local-debt-paid", (t.lC==lC0+n)&(t.lD==lD0)&(t.D==D0)); ENSURES("root-terminates-iff-nothing-is-owed", terms==(int)(last&(k==Root)));
  ENSURES("node-disengages-iff-nothing-is-owed", dis==(int)last); ENSURES("parent-acknowledged-on-disengaging", acks==(int)(last&(k==Engaged))); if (acks) ENSURES("parent-gets-its-engaging-messages-back", (ack_to[0]==par)&(ack_n[0]==emc));
  ENSURES("invariant-restored", inv(t,last?Idle:k)); delete tp;
}
CONTRACT(overpaid_local_debt_refused) { SETUP auto n=anyN("count",1); REQUIRES(lC0+n>lD0); vtc_expect_abort(1); t.msgProcessed(self_,n); ENSURES("more-local-work-done-than-sent-refused", false); }
CONTRACT(no_effect_calls) { SETUP t.needAck(); t.doneSending(); ENSURES("bookkeeping-unchanged", (t.D==D0)&(t.lC==lC0)&(t.lD==lD0)&(acks==0)&(terms==0)&(dis==0)&inv(t,k)); ENSURES("has-parent", t.hasParent()==(k!=Idle)); delete tp; }
