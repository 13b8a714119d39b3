// Callbacks made from a function, a functor or a member of an object: they run just that, with the arguments sent.
// @pre pipe/pre.h
// @source vt/pipe/signal/signal_holder.cc vt/pipe/pipe_manager_base.cc vt/pipe/pipe_manager.cc vt/pipe/state/pipe_state.cc vt/pipe/id/pipe_id.cc vt/pipe/callback/cb_union/cb_raw_base.cc vt/pipe/callback/anon/callback_anon_tl.cc vt/pipe/callback/handler_send/callback_send_tl.cc vt/pipe/callback/handler_bcast/callback_bcast_tl.cc vt/context/context.cc vt/objgroup/proxy/proxy_bits.cc
// @symsource @vtc/abs/std/string_inst.cc
// @opt stl_model=True
#include "vtc.h"
#include "vtc_ctx.h"
#include "vt/pipe/pipe_manager.h"
#include "vt/pool/pool.h"
#include <cstdlib>
namespace vtc_env { alignas(64) inline unsigned char pool[sizeof(vt::pool::Pool)]; inline vt::pipe::PipeManager* cb=nullptr; }
namespace vt { pool::Pool* thePool() { return reinterpret_cast<pool::Pool*>(vtc_env::pool); } pipe::PipeManager* theCB() { return vtc_env::cb; }
namespace pool { std::byte* Pool::alloc(size_t const& n, size_t o) { return static_cast<std::byte*>(std::malloc(n+o)); } void Pool::dealloc(std::byte* p) { std::free(p); } } }
using namespace vtc_env; using namespace vt; using namespace vt::pipe; namespace cbu=vt::pipe::callback::cbunion;
struct TMsg : vt::Message { uint64_t v=0; };
static NodeType me; static int ran[4]; static void* with[4];
static NodeType anyNode(const char* n) { return vtc_symbolic()?vtc::any_in<NodeType>(n,0,32766):vtc::any_in<NodeType>(n,0,3); }
template <typename S> static void fresh() { new ((void*)&PipeManagerBase::signal_holder_<S>) signal::SignalHolder<S>(); }
static PipeManager& init() { fresh<signal::Signal<TMsg>>(); fresh<signal::SignalVoid>(); fresh<signal::Signal<messaging::ParamMsg<std::tuple<>>>>(); vtc_make_context(0,1); nsent=nruns=nhans=nsetup=0; for (int k=0;k<4;k++) { ran[k]=0; with[k]=nullptr; } me=anyNode("this node"); vtc_ctx->thisNode_=me; cur_epoch=vtc::any<uint64_t>("epoch"); cb=new PipeManager; return *cb; }
static TMsg* msg(uint64_t v=0) { auto p=makeMessage<TMsg>(); p->v=v; messageRef(p.get()); return p.get(); }
template <typename... A> using PM=messaging::ParamMsg<std::tuple<A...>>;
static void onMsg(TMsg*) {} static void otherMsg(TMsg*) {} static void onInts(int,uint64_t) {} static void otherInts(int,uint64_t) {} static void onVoid() {}
struct FMsg { void operator()(TMsg*) {} }; struct FInts { void operator()(int,uint64_t) {} };
struct Obj { void onMsg(TMsg*) {} void onInts(int,uint64_t) {} void otherInts(int,uint64_t) {} };
template <auto f, typename M, int kind> static HandlerType handlerOf() { if constexpr (kind!=0) return vtc_han<f,M>(kind); else return vtc_env::reg((void*)f); }
static void goes(NodeType n, HandlerType h, void* m) { if (n==me) ENSURES("runs-here", (nruns==1)&(nsent==0) && (runs[0].han==h)&(!m||runs[0].msg==m)&(runs[0].td==1)); else ENSURES("one-message-to-the-target", (nsent==1)&(nruns==0) && (sent[0].han==h)&(!m||sent[0].msg==m)&(sent[0].dest==n)); ENSURES("in-the-epoch-of-the-sender", nsetup==1); }
static void* theMsgSent() { return nruns?runs[0].msg:sent[0].msg; }
static void everywhere(HandlerType h) { ENSURES("one-broadcast-of-the-handler", (nsent==1)&(nruns==0) && (sent[0].dest==-2)&(sent[0].han==h)); }
CONTRACT(function_of_message) { auto& m=init(); auto n=anyNode("target"); auto h2=handlerOf<&otherMsg,TMsg,0>(), h=handlerOf<&onMsg,TMsg,0>(); REQUIRES(h!=h2); auto* x=msg(); int how=vtc::choose(3); auto c=how==0?m.makeSend<TMsg,&onMsg>(n):how==1?m.makeSend<&onMsg>(n):m.makeSend<&onMsg>((int)n); ENSURES("nothing-runs-by-making-it", (nsent==0)&(nruns==0)); ENSURES("belongs-to-this-node", PipeIDBuilder::getNode(c.getPipe())==me); c.send(x); goes(n,h,x); }
CONTRACT(function_of_message_everywhere) { auto& m=init(); auto h2=handlerOf<&otherMsg,TMsg,0>(), h=handlerOf<&onMsg,TMsg,0>(); REQUIRES(h!=h2); auto c=vtc::choose(2)?m.makeBcast<TMsg,&onMsg>():m.makeBcast<&onMsg>(); auto* x=msg(); c.send(x); everywhere(h); ENSURES("the-message", sent[0].msg==x); }
CONTRACT(function_of_values) { auto& m=init(); auto n=anyNode("target"); handlerOf<&otherInts,PM<int,uint64_t>,1>(); auto h=handlerOf<&onInts,PM<int,uint64_t>,1>(); auto a=vtc::any<int>("first"); auto b=vtc::any<uint64_t>("second"); auto c=m.makeSend<&onInts>(n); if (vtc::choose(2)) c.send(a,b); else c.sendTuple(std::make_tuple(a,b)); goes(n,h,nullptr); auto* p=static_cast<PM<int,uint64_t>*>(theMsgSent()); ENSURES("with-the-values-sent", (std::get<0>(p->getTuple())==a)&(std::get<1>(p->getTuple())==b)); }
CONTRACT(function_of_values_everywhere) { auto& m=init(); handlerOf<&otherInts,PM<int,uint64_t>,1>(); auto h=handlerOf<&onInts,PM<int,uint64_t>,1>(); auto a=vtc::any<int>("first"); auto b=vtc::any<uint64_t>("second"); auto c=m.makeBcast<&onInts>(); c.send(a,b); everywhere(h); auto* p=static_cast<PM<int,uint64_t>*>(sent[0].msg); ENSURES("with-the-values-sent", (std::get<0>(p->getTuple())==a)&(std::get<1>(p->getTuple())==b)); }
CONTRACT(functor) { auto& m=init(); auto n=anyNode("target"); auto hm=vtc_han_functor<FMsg,TMsg>(true), hi=vtc_han_functor<FInts,PM<int,uint64_t>>(false); bool all=vtc::choose(2); if (vtc::choose(2)) { auto* x=msg(); auto c=all?m.makeBcast<FMsg>():m.makeSend<FMsg>(n); c.send(x); if (all) everywhere(hm); else goes(n,hm,x); } else { auto a=vtc::any<int>("first"); auto b=vtc::any<uint64_t>("second"); auto c=all?m.makeBcast<FInts>():m.makeSend<FInts>(n); c.send(a,b); if (all) everywhere(hi); else goes(n,hi,nullptr); auto* p=static_cast<PM<int,uint64_t>*>(theMsgSent()); ENSURES("with-the-values-sent", (std::get<0>(p->getTuple())==a)&(std::get<1>(p->getTuple())==b)); } }
// a member of an object in a group
CONTRACT(object_member) { auto& m=init(); auto n=anyNode("target"); auto id=vtc::any_in<uint32_t>("object group",0,(1u<<30)); auto pr=objgroup::proxy::ObjGroupProxy::create(id,me,true); objgroup::proxy::ProxyElm<Obj> e{pr,n}; objgroup::proxy::Proxy<Obj> g{pr}; handlerOf<&Obj::otherInts,PM<int,uint64_t>,2>(); auto hm=handlerOf<&Obj::onMsg,TMsg,3>(), hi=handlerOf<&Obj::onInts,PM<int,uint64_t>,2>(); vtc_ctrl=~0ull; bool all=vtc::choose(2);
  if (vtc::choose(2)) { auto* x=msg(); auto c=all?m.makeBcast<&Obj::onMsg>(g):m.makeSend<&Obj::onMsg>(e); ENSURES("handler-of-this-group", vtc_ctrl==id); c.send(x); ENSURES("one-send", (nsent==1)&(nruns==0) && (sent[0].f==(void*)3)&(sent[0].han==hm)&(sent[0].msg==x)&(sent[0].dest==(all?-2:(int)n))); }
  else { auto a=vtc::any<int>("first"); auto b=vtc::any<uint64_t>("second"); auto c=all?m.makeBcast<&Obj::onInts>(g):m.makeSend<&Obj::onInts>(e); ENSURES("handler-of-this-group", vtc_ctrl==id); c.send(a,b); ENSURES("one-send", (nsent==1)&(nruns==0) && (sent[0].f==(void*)3)&(sent[0].han==hi)&(sent[0].dest==(all?-2:(int)n))); auto* p=static_cast<PM<int,uint64_t>*>(theMsgSent()); ENSURES("with-the-values-sent", (std::get<0>(p->getTuple())==a)&(std::get<1>(p->getTuple())==b)); } }
