#define DEMO_CONTEXT
#include "demo.h"
#include "vt/runnable/make_runnable.h"
#include "vt/context/runnable_context/collection.impl.h"
#include "vt/vrt/collection/types/indexable.impl.h"
#include "vt/pool/pool.h"
#include "vt/pool/static_sized/memory_pool_equal.impl.h"
#include "vt/elm/elm_lb_data.h"
#include "vt/registry/auto/auto_registry.h"
#include "vt/scheduler/scheduler.h"
#include "vt/runtime/mpi_access.h"
#include "vt/runtime/runtime.h"
#include "vt/configs/arguments/app_config.h"
#include <cstdlib>
#include <cstring>
namespace vtc_env { alignas(64) inline unsigned char pool_mem[sizeof(vt::pool::Pool)], sched_mem[sizeof(vt::sched::Scheduler)], term_mem[sizeof(Term)], cfg_mem[sizeof(vt::arguments::AppConfig)], rt_mem[sizeof(vt::runtime::Runtime)]; inline double now=1.; }
extern "C" double MPI_Wtime() { return vtc_env::now; }
namespace vt { pool::Pool* thePool() { return reinterpret_cast<pool::Pool*>(vtc_env::pool_mem); } sched::Scheduler* theSched() { return reinterpret_cast<sched::Scheduler*>(vtc_env::sched_mem); } arguments::AppConfig* theConfig() { return reinterpret_cast<arguments::AppConfig*>(vtc_env::cfg_mem); } runtime::Runtime* curRT=reinterpret_cast<runtime::Runtime*>(vtc_env::rt_mem);
namespace pool { std::byte* Pool::alloc(size_t const& n, size_t o) { return static_cast<std::byte*>(std::malloc(n+o)); } void Pool::dealloc(std::byte* p) { std::free(p); } } }
using namespace vtc_env; using namespace vt; using namespace vt::runnable; using vt::term::any_epoch_sentinel; using Idx=vt::Index1D; using Elm=vrt::collection::Indexable<Idx>; using Hold=vrt::collection::CollectionContextHolder<Idx>;
struct TMsg : vt::EpochMessage { int v=0; };
static int ran, picked; static void (*inside)()=nullptr;
static void look() { ran++; if (inside) { auto f=inside; inside=nullptr; f(); } }
struct Num : auto_registry::BaseHandlersDispatcher { int k; explicit Num(int n) : k(n) {} void dispatch(messaging::BaseMsg*, std::byte*) const override { picked=k; look(); } };
struct Poll : runtime::component::Progressable { int progress(TimeType) override { polled++; return 0; } static inline int polled=0; };
static void init() { demo_context(3,8); now=1.; std::memset(term_mem,0,sizeof term_mem); term_=reinterpret_cast<Term*>(term_mem); new (&term_->epoch_stack_) term::EpochStack(); term_->pushEpoch(EpochType{1});
  theConfig()->vt_sched_num_progress=1; auto* p=new runtime::component::ComponentPack; p->pollable_components_.push_back(new Poll); new (&curRT->p_) std::unique_ptr<runtime::component::ComponentPack>(p);
  auto* s=theSched(); new (&s->work_queue_) decltype(s->work_queue_)(); new (&s->event_triggers) decltype(s->event_triggers)(); new (&s->event_triggers_once) decltype(s->event_triggers_once)(); s->event_triggers.resize(7); s->event_triggers_once.resize(7); s->is_recent_time_stale_=true; s->is_idle=s->is_idle_minus_term=true;
  auto& r=auto_registry::getAutoRegistryGen<auto_registry::AutoActiveContainerType>(); r.clear(); for (int k=0;k<3;k++) r.emplace_back(auto_registry::NumArgsTag,std::unique_ptr<auto_registry::BaseHandlersDispatcher>(new Num(k)),0);
  new (&RunnableNewAlloc::runnable) std::unique_ptr<pool::MemoryPoolEqual<sizeof(RunnableNew)>>(new pool::MemoryPoolEqual<sizeof(RunnableNew)>(16)); }
static HandlerType general(int id=1) { return HandlerManager::makeHandler(true,false,id,auto_registry::RegistryTypeEnum::RegGeneral); }
static Elm* element(int ix, VirtualProxyType px) { auto* e=static_cast<Elm*>(std::calloc(1,sizeof(Elm))); e->set_index_=true; e->index_=Idx(ix); e->proxy_=px; return e; }
