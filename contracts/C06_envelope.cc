// Message envelopes: header fields, type flags, lock, reference count, epochs, tags, put payloads.
#include "vtc.h"
#include "vt/messaging/envelope.h"
#include "vt/messaging/message/message_priority.h"
#include <cstring>
using namespace vt; using namespace vt::messaging;
struct E { bool pipe,put,term,bc,ep,tg,pk; NodeType dest; HandlerType han; RefType ref; GroupType grp; bool ser,lock,deliver,above;
#if vt_check_enabled(priorities)
  PriorityType pr; PriorityLevelType pl;
#endif
#if vt_check_enabled(trace_enabled)
  trace::TraceEventIDType te; bool tr;
#endif
};
template <typename T> static E view(T& e) {
  E v; v.pipe=envelopeIsPipe(e); v.put=envelopeIsPut(e); v.term=envelopeIsTerm(e); v.bc=envelopeIsBcast(e); v.ep=envelopeIsEpochType(e); v.tg=envelopeIsTagType(e); v.pk=envelopeIsPackedPutType(e);
  v.dest=envelopeGetDest(e); v.han=envelopeGetHandler(e); v.ref=envelopeGetRef(e); v.grp=envelopeGetGroup(e); v.ser=envelopeHasBeenSerialized(e); v.lock=envelopeIsLocked(e); v.deliver=envelopeGetDeliverBcast(e); v.above=envelopeCommLBDataRecordedAboveBareHandler(e);
#if vt_check_enabled(priorities)
  v.pr=envelopeGetPriority(e); v.pl=envelopeGetPriorityLevel(e);
#endif
#if vt_check_enabled(trace_enabled)
  v.te=envelopeGetTraceEvent(e); v.tr=envelopeGetTraceRuntimeEnabled(e);
#endif
  return v;
}
static bool eq(E const& a, E const& b) {
  bool r=(a.pipe==b.pipe)&(a.put==b.put)&(a.term==b.term)&(a.bc==b.bc)&(a.ep==b.ep)&(a.tg==b.tg)&(a.pk==b.pk)&(a.dest==b.dest)&(a.han==b.han)&(a.ref==b.ref)&(a.grp==b.grp)&(a.ser==b.ser)&(a.lock==b.lock)&(a.deliver==b.deliver)&(a.above==b.above);
#if vt_check_enabled(priorities)
  r=r&(a.pr==b.pr)&(a.pl==b.pl);
#endif
#if vt_check_enabled(trace_enabled)
  r=r&(a.te==b.te)&(a.tr==b.tr);
#endif
  return r;
}
CONTRACT(setters) {
  Envelope e; vtc::havoc(e,"env"); REQUIRES(!envelopeIsLocked(e)); E w=view(e);
  switch (vtc::choose(20)) {
  case 0: setNormalType(e); w.pipe=w.put=w.term=w.bc=w.ep=w.tg=w.pk=false; break;
  case 1: setPipeType(e); w.pipe=true; break;
  case 2: setPutType(e); w.put=true; break;
  case 3: setTermType(e); w.term=true; break;
  case 4: w.deliver=vtc::any<bool>("v"); setBroadcastType(e,w.deliver); w.bc=true; break;
  case 5: setEpochType(e); w.ep=true; break;
  case 6: setTagType(e); w.tg=true; break;
  case 7: setPackedPutType(e); w.pk=true; break;
  case 8: w.han=vtc::any<HandlerType>("v"); envelopeSetHandler(e,w.han); break;
  case 9: w.dest=vtc::any<NodeType>("v"); envelopeSetDest(e,w.dest); break;
  case 10: w.ref=vtc::any<RefType>("v"); envelopeSetRef(e,w.ref); break;
  case 11: w.grp=vtc::any<GroupType>("v"); envelopeSetGroup(e,w.grp); break;
  case 12: w.ser=vtc::any<bool>("v"); envelopeSetHasBeenSerialized(e,w.ser); break;
  case 13: w.above=vtc::any<bool>("v"); envelopeSetCommLBDataRecordedAboveBareHandler(e,w.above); break;
  case 14: w.lock=vtc::any<bool>("v"); envelopeSetIsLocked(e,w.lock); break;
  case 15: envelopeUnlockForForwarding(e); w.lock=false; break;
#if vt_check_enabled(priorities)
  case 16: w.pr=vtc::any<PriorityType>("v"); envelopeSetPriority(e,w.pr); break;
  case 17: w.pl=vtc::any<PriorityLevelType>("v"); envelopeSetPriorityLevel(e,w.pl); break;
#endif
#if vt_check_enabled(trace_enabled)
  case 18: w.te=vtc::any<trace::TraceEventIDType>("v"); envelopeSetTraceEvent(e,w.te); break;
  case 19: w.tr=vtc::any<bool>("v"); envelopeSetTraceRuntimeEnabled(e,w.tr); break;
#endif
  default: break;
  }
  ENSURES("setter-changes-exactly-its-field", eq(view(e),w));
}
CONTRACT(setup) {
  Envelope e; vtc::havoc(e,"env"); REQUIRES(!envelopeIsLocked(e)); E w=view(e);
  w.dest=vtc::any<NodeType>("dest"); w.han=vtc::any<HandlerType>("han");
  envelopeSetup(e,w.dest,w.han);
  ENSURES("setup-sets-destination-and-handler-only", eq(view(e),w));
}
CONTRACT(locked_refuses) {
  Envelope e; vtc::havoc(e,"env"); REQUIRES(envelopeIsLocked(e));
  vtc_expect_abort(1);
  switch (vtc::choose(10)) {
  case 0: setNormalType(e); break;
  case 1: setPipeType(e); break;
  case 2: setPutType(e); break;
  case 3: setTermType(e); break;
  case 4: setBroadcastType(e,true); break;
  case 5: setEpochType(e); break;
  case 6: setTagType(e); break;
  case 7: envelopeSetHandler(e,1); break;
  case 8: envelopeSetDest(e,1); break;
  default: envelopeSetGroup(e,1); break;
  }
  ENSURES("a-locked-envelope-rejects-the-write", false);
}
CONTRACT(locked_unlocked_ops) {
  // operations allowed on a locked envelope leave everything else, including the lock, alone
  Envelope e; vtc::havoc(e,"env"); REQUIRES(envelopeIsLocked(e)); E w=view(e);
  switch (vtc::choose(3)) {
  case 0: w.ref=vtc::any<RefType>("v"); envelopeSetRef(e,w.ref); break;
  case 1: w.ser=vtc::any<bool>("v"); envelopeSetHasBeenSerialized(e,w.ser); break;
  default: envelopeUnlockForForwarding(e); w.lock=false; break;
  }
  ENSURES("permitted-operation-changes-exactly-its-field", eq(view(e),w));
}
CONTRACT(refcount) {
  Envelope e; vtc::havoc(e,"env"); E w=view(e); auto r=w.ref;
  if (vtc::choose(2)) {
    REQUIRES(r!=not_shared_message); envelopeRef(e); w.ref=r+1;
    ENSURES("acquire-adds-one-reference", eq(view(e),w));
    if (r < not_shared_message-1) {
      auto x=envelopeDeref(e); w.ref=r;
      ENSURES("release-undoes-acquire", eq(view(e),w)&(x==r));
    }
  } else {
    REQUIRES(r>=1); auto x=envelopeDeref(e); w.ref=r-1;
    ENSURES("release-drops-one-reference-and-returns-the-rest", eq(view(e),w)&(x==w.ref));
  }
}
CONTRACT(refcount_refuses) {
  Envelope e; vtc::havoc(e,"env");
  bool up=vtc::choose(2); REQUIRES(envelopeGetRef(e)==(up ? not_shared_message : 0));
  vtc_expect_abort(1);
  if (up) envelopeRef(e); else envelopeDeref(e);
  ENSURES("unshared-message-cannot-be-acquired-nor-dead-one-released", false);
}
template <typename T> static void initchk(T& e, bool ep, bool tg) {
  E v=view(e);
  ENSURES("fresh-type-flags", (!v.pipe)&(!v.put)&(!v.term)&(!v.bc)&(v.ep==ep)&(v.tg==tg));
  ENSURES("fresh-destination-handler", (v.dest==uninitialized_destination)&(v.han==uninitialized_handler));
  ENSURES("fresh-not-shared", v.ref==not_shared_message);
  ENSURES("fresh-default-group", v.grp==default_group);
  ENSURES("fresh-unlocked-unserialized", (!v.lock)&(!v.ser)&(!v.above));
#if vt_check_enabled(priorities)
  ENSURES("fresh-priority", (v.pr==min_priority)&(v.pl==0));
#endif
#if vt_check_enabled(trace_enabled)
  ENSURES("fresh-trace", v.tr&(v.te==trace::no_trace_event));
#endif
}
CONTRACT(init_plain) { Envelope e; vtc::havoc(e,"env"); envelopeInitEmpty(e); initchk(e,false,false); }
CONTRACT(init_epoch) { EpochEnvelope e; vtc::havoc(e,"env"); envelopeInitEmpty(e); initchk(e,true,false); ENSURES("fresh-no-epoch", envelopeGetEpoch(e)==no_epoch); }
CONTRACT(init_tag) { TagEnvelope e; vtc::havoc(e,"env"); envelopeInitEmpty(e); initchk(e,false,true); ENSURES("fresh-no-tag", envelopeGetTag(e)==no_tag); }
CONTRACT(init_epoch_tag) { EpochTagEnvelope e; vtc::havoc(e,"env"); envelopeInitEmpty(e); initchk(e,true,true); ENSURES("fresh-no-epoch-no-tag", (envelopeGetEpoch(e)==no_epoch)&(envelopeGetTag(e)==no_tag)); }
CONTRACT(epoch_and_tag) {
  EpochTagEnvelope e; vtc::havoc(e,"env"); REQUIRES(envelopeIsEpochType(e)&envelopeIsTagType(e)); E w=view(e);
  auto ep=envelopeGetEpoch(e); auto tg=envelopeGetTag(e);
  if (vtc::choose(2)) { ep=EpochType{vtc::any<uint64_t>("epoch")}; envelopeSetEpoch(e,ep); } else { tg=vtc::any<TagType>("tag"); envelopeSetTag(e,tg); }
  ENSURES("epoch-and-tag-independent", (envelopeGetEpoch(e)==ep)&(envelopeGetTag(e)==tg));
  ENSURES("epoch-or-tag-leaves-header", eq(view(e),w));
}
CONTRACT(epoch_only) {
  EpochEnvelope e; vtc::havoc(e,"env"); REQUIRES(envelopeIsEpochType(e)&!envelopeIsTagType(e)); E w=view(e);
  auto ep=EpochType{vtc::any<uint64_t>("epoch")}; envelopeSetEpoch(e,ep);
  ENSURES("epoch-stored", envelopeGetEpoch(e)==ep); ENSURES("epoch-leaves-header", eq(view(e),w));
}
CONTRACT(tag_only) {
  TagEnvelope e; vtc::havoc(e,"env"); REQUIRES(!envelopeIsEpochType(e)&envelopeIsTagType(e)); E w=view(e);
  auto tg=vtc::any<TagType>("tag"); envelopeSetTag(e,tg);
  ENSURES("tag-stored", envelopeGetTag(e)==tg); ENSURES("tag-leaves-header", eq(view(e),w));
}
CONTRACT(wrong_kind_refused) {
  EpochTagEnvelope e; vtc::havoc(e,"env"); vtc_expect_abort(1);
  switch (vtc::choose(4)) {
  case 0: REQUIRES(!envelopeIsEpochType(e)); (void)envelopeGetEpoch(e); break;
  case 1: REQUIRES(!envelopeIsEpochType(e)); envelopeSetEpoch(e,no_epoch); break;
  case 2: REQUIRES(!envelopeIsTagType(e)); (void)envelopeGetTag(e); break;
  default: REQUIRES(!envelopeIsTagType(e)); envelopeSetTag(e,no_tag); break;
  }
  ENSURES("envelope-without-the-field-refuses-access", false);
}
CONTRACT(copy_init) {
  Envelope e,s; vtc::havoc(e,"dst"); vtc::havoc(s,"src"); E a=view(e), w=view(s); w.ref=a.ref; w.lock=false; E sv=view(s);
  envelopeInitCopy(e,s);
  ENSURES("copy-takes-everything-but-the-reference-count-and-lock", eq(view(e),w));
  ENSURES("copy-leaves-source", eq(view(s),sv));
}
CONTRACT(bcast_copy) {
  Envelope e,s; vtc::havoc(e,"dst"); vtc::havoc(s,"src"); E w=view(e), sv=view(s);
  envelopeCopyBcastData(e,s); E v=view(e);
  w.dest=sv.dest; w.bc=true; w.lock=true; w.deliver=v.deliver;
  ENSURES("broadcast-copy-takes-destination-and-locks", eq(v,w)); ENSURES("broadcast-copy-leaves-source", eq(view(s),sv));
}
CONTRACT(recv_init) {
  Envelope e; vtc::havoc(e,"env"); REQUIRES(envelopeIsLocked(e)); E w=view(e); w.ref=0;
  envelopeInitRecv(e);
  ENSURES("received-message-starts-unreferenced", eq(view(e),w));
}
CONTRACT(put) {
  PutShortEnvelope e; vtc::havoc(e,"env"); REQUIRES(envelopeIsPut(e.env)); E w=view(e.env);
  auto p=vtc::any<uint64_t>("ptr"); auto n=vtc::any<uint64_t>("size"); auto t=vtc::any<TagType>("tag");
  envelopeSetPutPtr(e,reinterpret_cast<std::byte*>(p),n); envelopeSetPutTag(e,t);
  ENSURES("put-payload", ((uint64_t)envelopeGetPutPtr(e)==p)&(envelopeGetPutSize(e)==n)&(envelopeGetPutTag(e)==t));
  auto q=vtc::any<uint64_t>("ptr2"); envelopeSetPutPtrOnly(e,reinterpret_cast<std::byte*>(q));
  ENSURES("put-pointer-only", ((uint64_t)envelopeGetPutPtr(e)==q)&(envelopeGetPutSize(e)==n)&(envelopeGetPutTag(e)==t));
  ENSURES("put-leaves-header", eq(view(e.env),w));
}
CONTRACT(put_init) {
  PutShortEnvelope e; vtc::havoc(e,"env"); envelopeInitEmpty(e);
  ENSURES("fresh-put", envelopeIsPut(e.env)&(envelopeGetPutPtr(e)==nullptr)&(envelopeGetPutSize(e)==0)&(envelopeGetPutTag(e)==no_tag)&envelopeIsEpochType(e.env)&envelopeIsTagType(e.env));
}
CONTRACT(put_refused) {
  PutShortEnvelope e; vtc::havoc(e,"env"); REQUIRES(!envelopeIsPut(e.env)); vtc_expect_abort(1);
  switch (vtc::choose(5)) { case 0: (void)envelopeGetPutPtr(e); break; case 1: (void)envelopeGetPutSize(e); break; case 2: (void)envelopeGetPutTag(e); break; case 3: envelopeSetPutPtr(e,nullptr,0); break; default: envelopeSetPutTag(e,0); break; }
  ENSURES("non-put-envelope-refuses-put-access", false);
}
