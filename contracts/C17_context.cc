// Running a task: what it sees while it runs, what it leaves behind, and what it counts for.
// @pre run/pre.h
// @source vt/pool/header/pool_header.cc vt/handler/handler.cc vt/pipe/signal/signal_holder.cc vt/runnable/runnable.cc vt/context/runnable_context/set_context.cc vt/context/runnable_context/td.cc vt/context/runnable_context/collection.cc vt/context/runnable_context/lb_data.cc vt/context/context.cc vt/context/context_attorney.cc vt/elm/elm_lb_data.cc vt/timing/timing.cc vt/scheduler/base_unit.cc vt/epoch/epoch_manip.cc
// @symsource @vtc/abs/std/string_inst.cc
// @opt stl_model=True
// @bounded epoch_stack one history of 80 nested epochs
#include "vtc.h"
#include "vtc_ctx.h"
#include "vt/runnable/make_runnable.h"
#include "vt/context/runnable_context/collection.impl.h"
#include "vt/vrt/collection/types/indexable.impl.h"
#include "vt/pool/pool.h"
#include "vt/pool/static_sized/memory_pool_equal.impl.h"
#include "vt/elm/elm_lb_data.h"
#include "vt/registry/auto/auto_registry.h"
#include <cstdlib>
namespace vtc_env { alignas(64) inline unsigned char pool[sizeof(vt::pool::Pool)], sched[sizeof(vt::sched::Scheduler)], term_mem[sizeof(Term)]; inline double now=1.; }
extern "C" double MPI_Wtime() { return vtc_env::now; }
namespace vt { pool::Pool* thePool() { return reinterpret_cast<pool::Pool*>(vtc_env::pool); } sched::Scheduler* theSched() { return reinterpret_cast<sched::Scheduler*>(vtc_env::sched); }
namespace pool { std::byte* Pool::alloc(size_t const& n, size_t o) { return static_cast<std::byte*>(std::malloc(n+o)); } void Pool::dealloc(std::byte* p) { std::free(p); } } }
using namespace vtc_env; using namespace vt; using namespace vt::runnable; using vt::term::any_epoch_sentinel; using Idx=vt::Index1D; using Elm=vrt::collection::Indexable<Idx>; using Hold=vrt::collection::CollectionContextHolder<Idx>;
struct TMsg : vt::EpochMessage { int v=0; };
static NodeType me; static RunnableNew* before; static uint64_t base_ep;
// a dispatcher that records the call and what the task can see during it
static int ran, ended; static void *with, *on; static RunnableNew* seen_task; static uint64_t seen_ep; static int seen_from, seen_depth; static Idx const* seen_idx; static VirtualProxyType seen_proxy; static void (*inside)()=nullptr;
static void look(void* m, void* o) { ran++; with=m; on=o; seen_task=theContext()->getTask(); seen_from=theContext()->getFromNodeCurrentTask(); seen_ep=term_->getEpoch().get(); seen_depth=term_->epoch_stack_.size(); seen_idx=Hold::index(); seen_proxy=Hold::proxy(); if (inside) { auto f=inside; inside=nullptr; f(); } }

static int picked; 
struct Num : auto_registry::BaseHandlersDispatcher { int k; explicit Num(int n) : k(n) {} void dispatch(messaging::BaseMsg* m, std::byte* o) const override { picked=k; look(m,o); } };
struct NumS : auto_registry::BaseScatterDispatcher { int k; explicit NumS(int n) : k(n) {} void dispatch(std::byte* m, std::byte* o) const override { picked=k; look(m,o); } };
template <typename C, typename D> static void fill(int base) { auto& r=auto_registry::getAutoRegistryGen<C>(); r.clear(); for (int k=0;k<3;k++) r.emplace_back(auto_registry::NumArgsTag,std::unique_ptr<typename D::B>(new typename D::T(base+k)),0); }
struct DN { using T=Num; using B=auto_registry::BaseHandlersDispatcher; }; struct DS { using T=NumS; using B=auto_registry::BaseScatterDispatcher; };
static void init() { vtc_make_context(0,1); me=vtc_symbolic()?vtc::any_in<NodeType>("this node",0,32766):3; vtc_ctx->thisNode_=me; nunits=0; ran=ended=0; with=on=nullptr; inside=nullptr; picked=-1; now=1.;
  std::memset(term_mem,0,sizeof term_mem); term_=reinterpret_cast<Term*>(term_mem); new (&term_->epoch_stack_) term::EpochStack(); base_ep=vtc::any<uint64_t>("epoch outside"); REQUIRES(base_ep!=no_epoch.get()); term_->pushEpoch(EpochType{base_ep});
  auto* s=theSched(); new (&s->work_queue_) decltype(s->work_queue_)(); s->num_term_msgs_=0; s->is_recent_time_stale_=true;
  new (&RunnableNewAlloc::runnable) std::unique_ptr<pool::MemoryPoolEqual<sizeof(RunnableNew)>>(new pool::MemoryPoolEqual<sizeof(RunnableNew)>(4));
  alignas(16) static unsigned char other[64]; before=vtc::choose(2)?reinterpret_cast<RunnableNew*>(other):nullptr; vtc_ctx->cur_task_=before; Hold::set(nullptr,no_vrt_proxy); }
static bool restored() { return (theContext()->getTask()==before) && (term_->epoch_stack_.size()==1) && (term_->getEpoch().get()==base_ep) && (Hold::index()==nullptr) && (Hold::proxy()==no_vrt_proxy); }
static MsgSharedPtr<TMsg> msg() { return makeMessage<TMsg>(); }
static Elm* element(const char* n) { auto* e=static_cast<Elm*>(std::calloc(1,sizeof(Elm))); e->set_index_=true; e->index_=Idx(vtc::any<int32_t>(n)); e->proxy_=vtc::any<VirtualProxyType>("collection"); REQUIRES(e->proxy_!=no_vrt_proxy); return e; }
static NodeType anyFrom() { return vtc::any<NodeType>("from"); }
static EpochType anyEp(const char* n="epoch") { return EpochType{vtc::any<uint64_t>(n)}; }
static HandlerType general(int id=1) { return HandlerManager::makeHandler(true,false,id,auto_registry::RegistryTypeEnum::RegGeneral); }
static void regs() { fill<auto_registry::AutoActiveContainerType,DN>(0); fill<auto_registry::ScatterContainerType,DS>(20); }
CONTRACT(runs_once_in_its_context) { init(); regs(); auto m=msg(); auto from=anyFrom(); auto ep=anyEp(); uint64_t eff=ep==no_epoch?any_epoch_sentinel.get():ep.get(); auto mk=makeRunnable(m,false,general(1),from); auto* r=mk.getRunnableImpl(); bool td=vtc::choose(2), cont=vtc::choose(2); static int order; order=0;
  ENSURES("nothing-counted-yet", nunits==0); if (td) mk.withTDEpoch(ep); if (cont) mk.withContinuation([]{ order=10*order+1; ended++; }); if (td) ENSURES("holds-its-epoch-from-the-start", (nunits==1)&(balance(eff)==1)); ENSURES("not-run-yet", ran==0);
  mk.run(); ENSURES("runs-once-with-its-message", (ran==1)&(picked==1)&(with==m.get())&(on==nullptr)); ENSURES("is-the-current-task", (seen_task==r)&(seen_from==from)); ENSURES("in-its-epoch", (seen_ep==(td?eff:base_ep))&(seen_depth==1+(int)td)); ENSURES("everything-restored", restored()); ENSURES("epoch-released-after-it-ran", (nunits==(td?2:0))&(balance(eff)==0)); ENSURES("continuation-runs-once", ended==(int)cont); }
CONTRACT(epoch_held_while_it_runs) { init(); regs(); auto m=msg(); auto ep=anyEp(); static uint64_t eff; eff=ep==no_epoch?any_epoch_sentinel.get():ep.get(); static int64_t during; during=-1; inside=[]{ during=balance(eff); }; auto mk=makeRunnable(m,false,general(2),me); mk.withTDEpoch(ep).run(); ENSURES("held-while-it-runs", during==1); ENSURES("released-afterwards", balance(eff)==0); }
CONTRACT(epoch_from_message) { init(); regs(); auto m=msg(); bool has=vtc::choose(2), term=vtc::choose(2), skip=vtc::choose(2); auto ep=anyEp(); if (has) { setEpochType(m->env); envelopeSetEpoch(m->env,ep); } if (term) setTermType(m->env); uint64_t eff=has&!term&(ep!=no_epoch)?ep.get():any_epoch_sentinel.get();
  auto mk=makeRunnable(m,false,general(),me); mk.withTDEpochFromMsg(skip); ENSURES("termination-messages-are-not-counted", nunits==(skip?0:1)); if (!skip) ENSURES("counts-for-the-epoch-of-the-message", balance(eff)==1); mk.run(); ENSURES("in-the-epoch-of-the-message", seen_ep==(skip?base_ep:eff)); ENSURES("restored", restored()&(balance(eff)==0)); }
CONTRACT(collection_element) { init(); regs(); auto m=msg(); auto* e=element("index"); bool mem=vtc::choose(2); int id=vtc::any_in<int>("id",0,2); auto h=HandlerManager::makeHandler(false,false,id,mem?auto_registry::RegistryTypeEnum::RegVrtCollectionMember:auto_registry::RegistryTypeEnum::RegVrtCollection); (void)h;
  auto mk=makeRunnable(m,false,h,me); mk.impl_->addContextCol(e); mk.set_handler_=true; mk.impl_->setupHandlerElement(reinterpret_cast<vrt::collection::UntypedCollection*>(e),h); mk.run();
  ENSURES("runs-the-handler-on-the-element", (ran==1)&(with==m.get())&(on==(void*)e)); ENSURES("the-one-registered", picked==id); ENSURES("sees-index-and-collection", (seen_idx==&e->index_)&(seen_proxy==e->proxy_)); ENSURES("restored", restored()); }
static MsgSharedPtr<TMsg>* imsg; static uint64_t iep; static Elm* inner_elm; static RunnableNew *inner, *outer; static bool back; static Elm* outer_elm; static int in_depth; static uint64_t in_ep; static bool in_ctx;
CONTRACT(task_within_a_task) { init(); regs(); auto m=msg(); static MsgSharedPtr<TMsg> n=nullptr; n=msg(); imsg=&n; auto oe=anyEp("outer epoch"), ie=anyEp("inner epoch"); REQUIRES(oe!=no_epoch); REQUIRES(ie!=no_epoch); iep=ie.get(); static uint64_t oep; oep=oe.get(); outer_elm=element("outer index"); inner_elm=element("inner index");
  static bool with_col; with_col=vtc::choose(2); static NodeType of,inf; of=anyFrom(); inf=anyFrom(); auto mk=makeRunnable(m,false,general(0),of); mk.withTDEpoch(oe); mk.impl_->addContextCol(outer_elm); outer=mk.getRunnableImpl(); back=in_ctx=false;
  inside=[]{ auto k=makeRunnable(*imsg,false,general(1),inf); inner=k.getRunnableImpl(); k.withTDEpoch(EpochType{iep}); if (with_col) k.impl_->addContextCol(inner_elm); k.run(); in_ctx=(seen_task==inner)&(seen_from==inf)&(seen_ep==iep)&(seen_idx==(with_col?&inner_elm->index_:&outer_elm->index_))&(seen_proxy==(with_col?inner_elm->proxy_:outer_elm->proxy_)); back=(theContext()->getTask()==outer)&(theContext()->getFromNodeCurrentTask()==of)&(term_->getEpoch().get()==oep)&(Hold::index()==&outer_elm->index_)&(Hold::proxy()==outer_elm->proxy_); };
  mk.run(); ENSURES("inner-sees-its-own", in_ctx); ENSURES("outer-context-is-back", back); ENSURES("both-ran-once", ran==2); ENSURES("restored", restored()); ENSURES("units-released", (nunits==4)&(balance(iep)==0)&(balance(oep)==0)); }
CONTRACT(plain_function) { init(); auto ep=anyEp(); uint64_t eff=ep==no_epoch?any_epoch_sentinel.get():ep.get(); auto from=anyFrom(); auto* e=element("index"); auto mk=makeRunnableVoid(false,uninitialized_handler,from); auto* r=mk.getRunnableImpl(); mk.set_handler_=true; mk.withTDEpoch(ep); mk.impl_->addContextCol(e); auto x=vtc::any<int>("argument"); int got=mk.runLambda([](int a){ look(nullptr,nullptr); return a; },x); ENSURES("runs-once-and-returns", (ran==1)&(got==x)); ENSURES("sees-its-context", (seen_task==r)&(seen_from==from)&(seen_ep==eff)&(seen_idx==&e->index_)); ENSURES("restored", restored()&(balance(eff)==0)&(nunits==2)); }
// which function a handler identifier stands for: kind of handler and position, nothing else of it
CONTRACT(handler_lookup) { init(); regs(); int kind=vtc::choose(7); int id=(int)vtc::choose(3); using RT=auto_registry::RegistryTypeEnum; auto ctrl=vtc::any_in<int32_t>("control",0,(1<<20)-1); bool trace=vtc::any<bool>("traced"); alignas(16) static std::byte obj[16];
  auto h=HandlerManager::makeHandler(kind<=3,kind==1,id,kind<=2?RT::RegGeneral:kind==3?RT::RegObjGroup:kind==4?RT::RegVrtCollection:kind==5?RT::RegVrtCollectionMember:RT::RegVrt,kind==3?ctrl:0,trace,kind!=2); auto m=msg(); auto* r=new RunnableNew(m,false); r->addContextSetContext(r,me);
  switch (kind) { case 0: case 1: case 2: r->setupHandler(h); break; case 3: r->setupHandlerObjGroup(obj,h); break; case 4: case 5: r->setupHandlerElement(reinterpret_cast<vrt::collection::UntypedCollection*>(obj),h); break; default: r->setupHandlerElement(reinterpret_cast<vrt::VirtualContext*>(obj),h); }
  r->run(); ENSURES("runs-the-registered-function", (ran==1)&(picked==(kind==2?20:0)+id)); ENSURES("with-message-and-object", (with==m.get())&(on==(kind>=3?(void*)obj:nullptr))); }
CONTRACT(object_handler_refused) { init(); regs(); auto h=HandlerManager::makeHandler(true,false,0,auto_registry::RegistryTypeEnum::RegObjGroup,5); auto m=msg(); auto mk=makeRunnable(m,false,h,me); vtc_expect_abort(1); mk.run(); ENSURES("refused", false); }
// handing a task to the scheduler: one work unit, run once when its turn comes
CONTRACT(enqueued_runs_once) { init(); regs(); auto* s=theSched(); auto m=msg(); bool term=vtc::choose(2), vd=vtc::choose(2); if (term) setTermType(m->env); auto n0=s->num_term_msgs_; if (vd) makeRunnableVoid(false,general(1),me).withTDEpoch(EpochType{5}).enqueue(); else makeRunnable(m,false,general(1),me).withTDEpochFromMsg(term).enqueue();
  ENSURES("one-unit-queued", (s->work_queue_.size()==1)&(ran==0)); ENSURES("termination-messages-are-known-as-such", s->num_term_msgs_==n0+(std::size_t)(term&!vd)); bool held=vd|!term; ENSURES("epoch-held-while-queued", nunits==(int)held); auto w=s->work_queue_.pop(); ENSURES("unit-marked", w.isTerm()==(term&!vd)); w(); ENSURES("runs-once", (ran==1)&(with==(vd?nullptr:m.get()))&(picked==1)); ENSURES("epoch-released", nunits==2*(int)held); ENSURES("restored", restored()); ENSURES("only-handed-over-once", s->work_queue_.empty()); }
CONTRACT(message_kept_while_queued) { init(); regs(); auto m=msg(); auto* p=m.get(); makeRunnable(m,false,general(1),me).enqueue(); ENSURES("shared", envelopeGetRef(p->env)==2); m=nullptr; ENSURES("kept", envelopeGetRef(p->env)==1); auto w=theSched()->work_queue_.pop(); static TMsg* q; q=p; static int refs; refs=0; inside=[]{ refs=envelopeGetRef(q->env); }; w(); ENSURES("kept-while-it-runs", (refs==1)&(with==p)); }
// time a task takes is added to its element, once
CONTRACT(load_of_an_element) { init(); regs(); auto* d=new elm::ElementLBData; auto m=msg(); static double t0,t1; t0=vtc_symbolic()?vtc::any_in<int>("start",0,1<<20):1; t1=t0+(vtc_symbolic()?vtc::any_in<int>("took",0,1<<20):2); now=t0; theSched()->setRecentTimeToStale(); inside=[]{ now=t1; }; auto mk=makeRunnable(m,false,general(),me); elm::ElementIDStruct id{}; mk.impl_->addContextLB(d,id); mk.run(); ENSURES("time-taken-is-added", d->getLoad(d->getPhase())==t1-t0); ENSURES("not-running", !d->cur_time_started_); }
// epochs in force: a stack of any depth
CONTRACT(epoch_stack) { init(); int n=0; uint64_t e[80]; for (int k=0;k<80;k++) { e[k]=(uint64_t)k*7+1; term_->pushEpoch(EpochType{e[k]}); n++; } ENSURES("innermost", term_->getEpoch().get()==e[79]); for (int k=79;k>=0;k--) { auto x=(k%2)?term_->popEpoch():term_->popEpoch(EpochType{e[k]}); ENSURES("pops-the-innermost", x.get()==e[k]); } ENSURES("back-to-the-first", (term_->getEpoch().get()==base_ep)&(term_->epoch_stack_.size()==1)); auto l=term_->popEpoch(); ENSURES("last", (l.get()==base_ep)&(term_->epoch_stack_.size()==0)); }
CONTRACT(epoch_push_pop) { init(); auto a=anyEp("a"); REQUIRES(a!=no_epoch); term_->pushEpoch(a); ENSURES("in-force", term_->getEpoch()==a); bool named=vtc::choose(2); auto x=named?term_->popEpoch(a):term_->popEpoch(); ENSURES("popped", x==a); ENSURES("previous-in-force", term_->getEpoch().get()==base_ep); }
CONTRACT(wrong_epoch_popped_refused) { init(); auto a=anyEp("a"), b=anyEp("b"); REQUIRES(a!=no_epoch); REQUIRES(b!=no_epoch); REQUIRES(a!=b); term_->pushEpoch(a); vtc_expect_abort(1); term_->popEpoch(b); ENSURES("refused", false); }
