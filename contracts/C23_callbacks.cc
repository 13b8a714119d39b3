// Callbacks and pipes: who is run, how often, and what remains.
// @pre pipe/pre.h
// @source vt/pipe/signal/signal_holder.cc vt/pipe/pipe_manager_base.cc vt/pipe/pipe_manager.cc vt/pipe/state/pipe_state.cc vt/pipe/id/pipe_id.cc vt/pipe/callback/cb_union/cb_raw_base.cc vt/pipe/callback/anon/callback_anon_tl.cc vt/pipe/callback/handler_send/callback_send_tl.cc vt/pipe/callback/handler_bcast/callback_bcast_tl.cc vt/context/context.cc
// @symsource @vtc/abs/std/string_inst.cc
// @opt stl_model=True
#include "vtc.h"
#include "vtc_ctx.h"
#include "vt/pipe/pipe_manager.h"
#include "vt/pool/pool.h"
#include <cstdlib>
namespace vtc_env { alignas(64) inline unsigned char pool[sizeof(vt::pool::Pool)]; inline vt::pipe::PipeManager* cb=nullptr; }
namespace vt { pool::Pool* thePool() { return reinterpret_cast<pool::Pool*>(vtc_env::pool); } pipe::PipeManager* theCB() { return vtc_env::cb; }
namespace pool { std::byte* Pool::alloc(size_t const& n, size_t o) { return static_cast<std::byte*>(std::malloc(n+o)); } void Pool::dealloc(std::byte* p) { std::free(p); } } }
using namespace vtc_env; using namespace vt; using namespace vt::pipe; namespace cbu=vt::pipe::callback::cbunion;
struct TMsg : vt::Message { uint64_t v=0; };
static NodeType me; static int ran[4]; static void* with[4];
static NodeType anyNode(const char* n) { return vtc_symbolic()?vtc::any_in<NodeType>(n,0,32766):vtc::any_in<NodeType>(n,0,3); }
template <typename S> static void fresh() { new ((void*)&PipeManagerBase::signal_holder_<S>) signal::SignalHolder<S>(); }
static PipeManager& init() { fresh<signal::Signal<TMsg>>(); fresh<signal::SignalVoid>(); fresh<signal::Signal<messaging::ParamMsg<std::tuple<>>>>(); vtc_make_context(0,1); nsent=nruns=nhans=nsetup=0; for (int k=0;k<4;k++) { ran[k]=0; with[k]=nullptr; } me=anyNode("this node"); vtc_ctx->thisNode_=me; cur_epoch=vtc::any<uint64_t>("epoch"); cb=new PipeManager; return *cb; }
static TMsg* msg(uint64_t v=0) { auto p=makeMessage<TMsg>(); p->v=v; messageRef(p.get()); return p.get(); }
// a function callback made here: run once per send, one-shot ones only once and then forgotten
CONTRACT(once_typed) { auto& m=init(); auto c=m.makeFunc<TMsg>(LifetimeEnum::Once,[](TMsg* x){ ran[0]++; with[0]=x; }); auto* x=msg(); auto id=c.getPipe(); ENSURES("belongs-to-this-node", PipeIDBuilder::getNode(id)==me); ENSURES("not-run-by-making-it", ran[0]==0);
  c.send(x); ENSURES("runs-once-with-the-message", (ran[0]==1)&(with[0]==x)&(nsent==0)&(nruns==0)); ENSURES("in-the-epoch-of-the-sender", nsetup==1); ENSURES("one-shot-pipe-is-forgotten", (m.pipe_state_.find(id)==m.pipe_state_.end()) && !PipeManagerBase::signal_holder_<signal::Signal<TMsg>>.exists(id)); }
CONTRACT(many_typed) { auto& m=init(); auto c=m.makeFunc<TMsg>(LifetimeEnum::Indefinite,[](TMsg* x){ ran[0]++; with[0]=x; }); auto* x=msg(); auto* y=msg(); c.send(x); ENSURES("runs-once-with-the-message", (ran[0]==1)&(with[0]==x)); c.send(y); ENSURES("runs-again", (ran[0]==2)&(with[0]==y)); ENSURES("stays", m.pipe_state_.find(c.getPipe())!=m.pipe_state_.end()); }
CONTRACT(once_void) { auto& m=init(); bool once=vtc::choose(2); auto c=m.makeFunc(once?LifetimeEnum::Once:LifetimeEnum::Indefinite,[]{ ran[0]++; }); c.send(); ENSURES("runs-once", ran[0]==1); auto id=c.getPipe(); ENSURES("one-shot-pipe-is-forgotten", (m.pipe_state_.find(id)==m.pipe_state_.end())==once); ENSURES("one-shot-listener-is-forgotten", PipeManagerBase::signal_holder_<signal::SignalVoid>.exists(id)==!once); if (!once) { c.send(); ENSURES("runs-again", ran[0]==2); } }
CONTRACT(two_callbacks) { auto& m=init(); auto a=m.makeFunc<TMsg>(LifetimeEnum::Once,[](TMsg*){ ran[0]++; }); auto b=m.makeFunc<TMsg>(vtc::choose(2)?LifetimeEnum::Once:LifetimeEnum::Indefinite,[](TMsg*){ ran[1]++; }); ENSURES("own-identifiers", a.getPipe()!=b.getPipe()); ENSURES("not-equal", !(a==b)); bool first=vtc::choose(2); (first?a:b).send(msg()); ENSURES("only-its-function-runs", (ran[0]==(int)first)&(ran[1]==(int)!first)); (first?b:a).send(msg()); ENSURES("then-the-other", (ran[0]==1)&(ran[1]==1)); }
static PipeManager* M; static Callback<TMsg>* inner;
CONTRACT(function_makes_callbacks) { auto& m=init(); M=&m; static Callback<TMsg>* made=nullptr; auto a=m.makeFunc<TMsg>(vtc::choose(2)?LifetimeEnum::Once:LifetimeEnum::Indefinite,[](TMsg* x){ ran[0]++; for (int k=0;k<3;k++) made=new Callback<TMsg>(M->makeFunc<TMsg>(LifetimeEnum::Once,[](TMsg*){ ran[1]++; })); made->send(x); }); a.send(msg()); ENSURES("each-runs-once", (ran[0]==1)&(ran[1]==1)); }
// a callback made on another node: the message goes there, once, and runs the function on arrival
static PipeType pipeOf(NodeType n) { return PipeIDBuilder::createPipeID(vtc::any_in<uint32_t>("pipe id",1,1u<<30),n,false,true); }
static bool collection=false;
static Callback<TMsg> pipeCallback(PipeType p) { return collection?Callback<TMsg>(cbu::RawSendColMsgTag,p):Callback<TMsg>(cbu::RawAnonTag,p); }
CONTRACT(remote_typed) { init(); collection=vtc::choose(2); auto o=anyNode("other node"); REQUIRES(o!=me); auto p=pipeOf(o); auto c=pipeCallback(p); auto* x=msg(); c.send(x); ENSURES("one-message-to-the-owner", (nsent==1) && (sent[0].dest==o)&(sent[0].msg==x)&(sent[0].f==(void*)static_cast<ActiveTypedFnType<TMsg>*>(&triggerCallbackMsgHan<TMsg>))&(nruns==0)); ENSURES("message-names-the-pipe", messaging::envelopeIsPipe(x->env) && (envelopeGetGroup(x->env)==p)); ENSURES("in-the-epoch-of-the-sender", nsetup==1); }
CONTRACT(remote_void) { init(); auto o=anyNode("other node"); REQUIRES(o!=me); auto p=pipeOf(o); Callback<TMsg> c(cbu::RawAnonTag,p); c.sendVoid(); ENSURES("one-message-to-the-owner", (nsent==1) && (sent[0].dest==o)&(sent[0].f==(void*)&PipeManager::triggerCallbackHan)&(nruns==0)); ENSURES("message-names-the-pipe", static_cast<CallbackMsg*>(sent[0].msg)->getPipe()==p); }
CONTRACT(message_arrives) { auto& m=init(); bool once=vtc::choose(2); auto c=m.makeFunc<TMsg>(once?LifetimeEnum::Once:LifetimeEnum::Indefinite,[](TMsg* x){ ran[0]++; with[0]=x; }); auto* x=msg(); setPipeType(x->env); envelopeSetGroup(x->env,c.getPipe()); PipeManager::triggerCallbackMsgHan<TMsg>(x); ENSURES("runs-once-with-the-message", (ran[0]==1)&(with[0]==x)&(nsent==0)); ENSURES("one-shot-pipe-is-forgotten", (m.pipe_state_.find(c.getPipe())==m.pipe_state_.end())==once); }
CONTRACT(void_message_arrives) { auto& m=init(); bool once=vtc::choose(2); auto c=m.makeFunc(once?LifetimeEnum::Once:LifetimeEnum::Indefinite,[]{ ran[0]++; }); auto p=makeMessage<CallbackMsg>(c.getPipe(),true); PipeManager::triggerCallbackHan(p.get()); ENSURES("runs-once", (ran[0]==1)&(nsent==0)); ENSURES("one-shot-pipe-is-forgotten", (m.pipe_state_.find(c.getPipe())==m.pipe_state_.end())==once); }
CONTRACT(not_a_pipe_message_refused) { init(); auto* x=msg(); envelopeSetGroup(x->env,pipeOf(me)); vtc_expect_abort(1); PipeManager::triggerCallbackMsgHan<TMsg>(x); ENSURES("refused", false); }
CONTRACT(unknown_pipe_refused) { init(); auto p=pipeOf(me); Callback<TMsg> c(cbu::RawAnonTag,p); auto* x=msg(); vtc_expect_abort(1); c.send(x); ENSURES("refused", false); }
CONTRACT(one_shot_again_refused) { auto& m=init(); auto c=m.makeFunc<TMsg>(LifetimeEnum::Once,[](TMsg*){ ran[0]++; }); c.send(msg()); auto* x=msg(); vtc_expect_abort(1); c.send(x); ENSURES("refused", false); }
// callbacks that name a handler
static HandlerType anyHan() { return vtc::any<HandlerType>("handler"); }
CONTRACT(send_to_node) { init(); auto n=anyNode("target"); auto h=anyHan(); Callback<TMsg> c(cbu::RawSendMsgTag,pipeOf(me),h,n); auto* x=msg(); c.send(x); if (n==me) ENSURES("runs-here-in-the-epoch-of-the-message", (nruns==1)&(nsent==0) && (runs[0].msg==x)&(runs[0].han==h)&(runs[0].td==1)&(runs[0].node==me)); else ENSURES("one-message-to-the-target", (nsent==1)&(nruns==0) && (sent[0].msg==x)&(sent[0].han==h)&(sent[0].dest==n)); ENSURES("in-the-epoch-of-the-sender", nsetup==1); }
CONTRACT(send_void_to_node) { init(); auto n=anyNode("target"); auto h=anyHan(); auto p=pipeOf(me); Callback<TMsg> c(cbu::RawSendMsgTag,p,h,n); c.sendVoid(); if (n==me) ENSURES("runs-here-in-the-current-epoch", (nruns==1)&(nsent==0) && (runs[0].msg==nullptr)&(runs[0].han==h)&(runs[0].td==2)&(runs[0].ep==cur_epoch)&(runs[0].node==me)); else ENSURES("one-message-to-the-target", (nsent==1)&(nruns==0) && (sent[0].han==h)&(sent[0].dest==n) && static_cast<CallbackMsg*>(sent[0].msg)->getPipe()==p); }
CONTRACT(broadcast_) { init(); auto h=anyHan(); Callback<TMsg> c(cbu::RawBcastMsgTag,pipeOf(me),h); auto* x=msg(); bool v=vtc::choose(2); if (v) c.sendVoid(); else c.send(x); ENSURES("one-broadcast-of-the-handler", (nsent==1)&(nruns==0) && (sent[0].dest==-2)&(sent[0].han==h)&(v||sent[0].msg==x)); }
CONTRACT(object_group) { init(); auto h=anyHan(); auto n=anyNode("target"); auto pr=vtc::any<ObjGroupProxyType>("proxy"); auto* x=msg(); if (vtc::choose(2)) { Callback<TMsg> c(cbu::RawSendObjGrpTag,pipeOf(me),h,pr,n); c.send(x); ENSURES("one-send-to-the-target", (nsent==1)&(nruns==0) && (sent[0].dest==n)&(sent[0].han==h)&(sent[0].msg==x)&(sent[0].f==(void*)3)); } else { envelopeSetGroup(x->env,vtc::any<GroupType>("group")); Callback<TMsg> c(cbu::RawBcastObjGrpTag,pipeOf(me),h,pr); c.send(x); ENSURES("one-broadcast-to-everyone", (nsent==1)&(nruns==0) && (sent[0].dest==-2)&(sent[0].han==h)&(sent[0].msg==x)&(sent[0].f==(void*)3)&(envelopeGetGroup(x->env)==default_group)); } }
// a callback to one collection element: every send is passed on to that element, as often as it is sent
struct ElmProxy; struct ColProxy { int at; int where() const { return at; } ColProxy index(int i) const { return ColProxy{at+i}; } };
struct ElmIdx { int i; int getIndex() const { return i; } };
struct ElmProxy { using IndexType=int; int c,i; ColProxy getCollectionProxy() const { return ColProxy{c}; } ElmIdx getElementProxy() const { return ElmIdx{i}; } };
struct Col { using ProxyType=ElmProxy; using CollectionProxyType=ColProxy; using IndexType=int; void fn(TMsg*) {} };
CONTRACT(collection_element) { auto& m=init(); ElmProxy e{vtc::any_in<int>("collection",0,1000)*1000000,vtc::any_in<int>("element",0,999999)}; auto c=m.makeSend<&Col::fn>(e); auto* x=msg(); int n=0; ENSURES("nothing-sent-by-making-it", nsent==0); for (int k=0;k<3;k++) { c.send(x); n++; ENSURES("one-message-to-the-element-per-send", (nsent==n)&(nruns==0) && (sent[n-1].dest==e.c+e.i)&(sent[n-1].han==77)&(sent[n-1].msg==x)&(sent[n-1].f==(void*)4)); ENSURES("stays", m.pipe_state_.find(c.getPipe())!=m.pipe_state_.end()); } }
CONTRACT(collection_element_from_away) { auto& m=init(); ElmProxy e{vtc::any_in<int>("collection",0,1000)*1000000,vtc::any_in<int>("element",0,999999)}; auto c=m.makeSend<&Col::fn>(e); auto* x=msg(); setPipeType(x->env); envelopeSetGroup(x->env,c.getPipe()); for (int n=1;n<3;n++) { PipeManager::triggerCallbackMsgHan<TMsg>(x); ENSURES("one-message-to-the-element-per-send", (nsent==n)&(nruns==0) && (sent[n-1].dest==e.c+e.i)&(sent[n-1].han==77)&(sent[n-1].msg==x)&(sent[n-1].f==(void*)4)); } }
CONTRACT(void_to_object_refused) { init(); Callback<TMsg> c; switch (vtc::choose(5)) { case 0: c=Callback<TMsg>(cbu::RawSendObjGrpTag,pipeOf(me),anyHan(),ObjGroupProxyType{1},me); break; case 1: c=Callback<TMsg>(cbu::RawBcastObjGrpTag,pipeOf(me),anyHan(),ObjGroupProxyType{1}); break; case 2: c=Callback<TMsg>(cbu::RawSendColMsgTag,pipeOf(me)); break; case 3: c=Callback<TMsg>(cbu::RawBcastColMsgTag,pipeOf(me)); break; default: break; } vtc_expect_abort(1); c.sendVoid(); ENSURES("refused", false); }
// a callback of any kind; copies are equal to it, any other one is not
static Callback<TMsg> anyCallback(int kind, PipeType p, HandlerType h, NodeType n, uint64_t pr) { switch (kind) { case 0: return Callback<TMsg>(cbu::RawSendMsgTag,p,h,n); case 1: return Callback<TMsg>(cbu::RawBcastMsgTag,p,h); case 2: return Callback<TMsg>(cbu::RawAnonTag,p); case 3: return Callback<TMsg>(cbu::RawSendColMsgTag,p); case 4: return Callback<TMsg>(cbu::RawBcastColMsgTag,p); case 5: return Callback<TMsg>(cbu::RawBcastColDirTag,p,h,(auto_registry::AutoHandlerType)7,pr); case 6: return Callback<TMsg>(cbu::RawBcastObjGrpTag,p,h,pr); default: return Callback<TMsg>(cbu::RawSendObjGrpTag,p,h,pr,n); } }
CONTRACT(equality) { init(); int k=vtc::choose(8), l=vtc::choose(8); auto p=pipeOf(me); auto h=anyHan(); auto n=anyNode("target"); auto pr=vtc::any<uint64_t>("proxy"); auto a=anyCallback(k,p,h,n,pr); ENSURES("valid", a.valid()&!a.null()); auto b=a; ENSURES("copy-is-equal", (a==b) && b.valid() && b.getPipe()==p); cbu::CallbackRawBaseSingle r(a); ENSURES("untyped-copy-is-equal", r==a); if (l!=k) ENSURES("another-kind-is-not-equal", !(a==anyCallback(l,p,h,n,pr))); auto q=pipeOf(me); REQUIRES(p!=q); ENSURES("another-pipe-is-not-equal", !(a==anyCallback(k,q,h,n,pr))); auto h2=anyHan(); REQUIRES(h2!=h); if ((k<2)|(k>4)) ENSURES("another-handler-is-not-equal", !(a==anyCallback(k,p,h2,n,pr))); Callback<TMsg> none; ENSURES("default-is-null", none.null() && !none.valid() && !(none==a)); }
