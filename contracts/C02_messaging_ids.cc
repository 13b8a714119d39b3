// Messaging identifiers (handlers, events, RDMA handles, pipes): every component packed in is read
// back, setting one component leaves the others alone.
// @source vt/handler/handler.cc vt/event/event_id.cc vt/rdma/rdma_handle.cc vt/pipe/id/pipe_id.cc
// @assume identifiers are below the width of their field: handler ids 36 bits, control 20 bits, as the layout documents
#include "vtc.h"
#include "vt/handler/handler.h"
#include "vt/event/event_id.h"
#include "vt/rdma/rdma_handle.h"
#include "vt/pipe/id/pipe_id.h"
using namespace vt;
using HM = HandlerManager; using RT = HM::RegistryTypeEnum;

struct H { bool au, fn, base; RT rt; uint64_t id; uint32_t ctl; };
static H view(HandlerType h) {
  return {HM::isHandlerAuto(h), HM::isHandlerFunctor(h), HM::isHandlerBaseMsgDerived(h), HM::getHandlerRegistryType(h), HM::getHandlerIdentifier(h), HM::getHandlerControl(h)};
}
static bool eq(H const& a, H const& b) {
  return (a.au==b.au)&(a.fn==b.fn)&(a.base==b.base)&(a.rt==b.rt)&(a.id==b.id)&(a.ctl==b.ctl);
}
static uint64_t anyId()  { return vtc::any_in<uint64_t>("id",0,(1ull<<36)-1); }
static uint32_t anyCtl() { return vtc::any_in<uint32_t>("control",0,(1u<<20)-1); }
static RT anyRT() { return static_cast<RT>(vtc::any_in<int8_t>("registry",0,15)); }

CONTRACT(handler_make) {
  bool au=vtc::any<bool>("auto"), fn=vtc::any<bool>("functor"), tr=vtc::any<bool>("trace"), bd=vtc::any<bool>("base");
  auto id=anyId(); auto ctl=anyCtl(); auto rt=anyRT();
  auto h=HM::makeHandler(au,fn,id,rt,ctl,tr,bd);
  ENSURES("handler-auto", HM::isHandlerAuto(h)==au);
  ENSURES("handler-functor", HM::isHandlerFunctor(h)==fn);
  ENSURES("handler-base-msg-derived", HM::isHandlerBaseMsgDerived(h)==bd);
  ENSURES("handler-registry-type", HM::getHandlerRegistryType(h)==rt);
  ENSURES("handler-identifier", HM::getHandlerIdentifier(h)==id);
  ENSURES("handler-control", HM::getHandlerControl(h)==ctl);
  ENSURES("handler-is-objgroup", HM::isHandlerObjGroup(h)==(rt==RT::RegObjGroup));
  ENSURES("handler-is-member", HM::isHandlerMember(h)==(rt==RT::RegVrtCollectionMember));
#if vt_check_enabled(trace_enabled)
  ENSURES("handler-trace", HM::isHandlerTrace(h)==tr);
#endif
}
CONTRACT(handler_injective) {
  H a{vtc::any<bool>("a1"),vtc::any<bool>("a2"),vtc::any<bool>("a3"),anyRT(),anyId(),anyCtl()};
  H b{vtc::any<bool>("b1"),vtc::any<bool>("b2"),vtc::any<bool>("b3"),anyRT(),anyId(),anyCtl()};
  auto x=HM::makeHandler(a.au,a.fn,a.id,a.rt,a.ctl,true,a.base), y=HM::makeHandler(b.au,b.fn,b.id,b.rt,b.ctl,true,b.base);
  ENSURES("distinct-components-distinct-handlers", vtc::implies(x==y, eq(a,b)));
}
CONTRACT(handler_setters) {
  HandlerType h=vtc::any<HandlerType>("h"); H v=view(h), w=v;
#if vt_check_enabled(trace_enabled)
  bool tr=HM::isHandlerTrace(h), wtr=tr;
#endif
  switch (vtc::choose(7)) {
  case 0: w.id=anyId(); HM::setHandlerIdentifier(h,w.id); break;
  case 1: w.ctl=anyCtl(); HM::setHandlerControl(h,w.ctl); break;
  case 2: w.au=vtc::any<bool>("v"); HM::setHandlerAuto(h,w.au); break;
  case 3: w.fn=vtc::any<bool>("v"); HM::setHandlerFunctor(h,w.fn); break;
  case 4: w.base=vtc::any<bool>("v"); HM::setHandlerBaseMsgDerived(h,w.base); break;
  case 5: w.rt=anyRT(); HM::setHandlerRegistryType(h,w.rt); break;
  default:
#if vt_check_enabled(trace_enabled)
    wtr=vtc::any<bool>("v"); HM::setHandlerTrace(h,wtr);
#endif
    break;
  }
  ENSURES("setter-changes-exactly-its-component", eq(view(h),w));
#if vt_check_enabled(trace_enabled)
  ENSURES("setter-trace-bit-framed", HM::isHandlerTrace(h)==wtr);
#endif
}

using EM = event::EventIDManager;
CONTRACT(event_make) {
  auto id=vtc::any<int32_t>("id"); auto node=vtc::any<NodeType>("node");
  auto e=EM::makeEvent(id,node);
  ENSURES("event-node", EM::getEventNode(e)==node);
  ENSURES("event-identifier", EM::getEventIdentifier(e)==id);
}
CONTRACT(event_setters) {
  auto e=vtc::any<EventType>("e"); auto n=EM::getEventNode(e); auto i=EM::getEventIdentifier(e);
  if (vtc::choose(2)) { n=vtc::any<NodeType>("v"); EM::setEventNode(e,n); } else { i=vtc::any<int32_t>("v"); EM::setEventIdentifier(e,i); }
  ENSURES("event-setter-changes-exactly-its-component", (EM::getEventNode(e)==n) & (EM::getEventIdentifier(e)==i));
}

using RM = rdma::HandleManager;
struct R { bool s,c,h; rdma::Type op; NodeType n; int32_t id; };
static R rview(RDMA_HandleType h) { return {RM::isSized(h),RM::isCollective(h),RM::isHandler(h),RM::getOpType(h),RM::getRdmaNode(h),RM::getRdmaIdentifier(h)}; }
static bool req(R const& a, R const& b) { return (a.s==b.s)&(a.c==b.c)&(a.h==b.h)&(a.op==b.op)&(a.n==b.n)&(a.id==b.id); }
CONTRACT(rdma_setters) {
  auto h=vtc::any<RDMA_HandleType>("h"); R w=rview(h);
  switch (vtc::choose(6)) {
  case 0: w.s=vtc::any<bool>("v"); RM::setIsSized(h,w.s); break;
  case 1: w.c=vtc::any<bool>("v"); RM::setIsCollective(h,w.c); break;
  case 2: w.h=vtc::any<bool>("v"); RM::setIsHandler(h,w.h); break;
  case 3: w.op=static_cast<rdma::Type>(vtc::any_in<uint32_t>("v",0,3)); RM::setOpType(h,w.op); break;
  case 4: w.n=vtc::any<NodeType>("v"); RM::setRdmaNode(h,w.n); break;
  default: w.id=vtc::any<int32_t>("v"); RM::setRdmaIdentifier(h,w.id); break;
  }
  ENSURES("rdma-setter-changes-exactly-its-component", req(rview(h),w));
}
CONTRACT(rdma_fresh) {
  auto h=RM::createNewHandler();
  ENSURES("rdma-fresh-handle", req(rview(h), R{false,false,false,rdma::Type::Uninitialized,0,0}));
}

using PB = pipe::PipeIDBuilder;
CONTRACT(pipe_make) {
  auto id=vtc::any<pipe::PipeIDType>("id"); auto n=vtc::any<NodeType>("node"); bool s=vtc::any<bool>("sendback"), p=vtc::any<bool>("persist");
  auto x=PB::createPipeID(id,n,s,p);
  ENSURES("pipe-components", (PB::getPipeID(x)==id) & (PB::getNode(x)==n) & (PB::isSendback(x)==s) & (PB::isPersist(x)==p));
}
CONTRACT(pipe_setters) {
  auto x=vtc::any<PipeType>("x"); auto id=PB::getPipeID(x); auto n=PB::getNode(x); bool s=PB::isSendback(x), p=PB::isPersist(x);
  switch (vtc::choose(4)) {
  case 0: id=vtc::any<pipe::PipeIDType>("v"); PB::setID(x,id); break;
  case 1: n=vtc::any<NodeType>("v"); PB::setNode(x,n); break;
  case 2: s=vtc::any<bool>("v"); PB::setIsSendback(x,s); break;
  default: p=vtc::any<bool>("v"); PB::setIsPersist(x,p); break;
  }
  ENSURES("pipe-setter-changes-exactly-its-component", (PB::getPipeID(x)==id) & (PB::getNode(x)==n) & (PB::isSendback(x)==s) & (PB::isPersist(x)==p));
}
