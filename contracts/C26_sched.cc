// The scheduler: every unit of work is run once, in its turn, and the world is told what the scheduler is doing.
// @pre run/pre.h
// @source vt/pipe/signal/signal_holder.cc vt/scheduler/scheduler.cc vt/scheduler/base_unit.cc vt/scheduler/suspended_units.cc vt/runtime/mpi_access.cc vt/runtime/component/component_pack.cc vt/context/context.cc vt/timing/timing.cc
// @symsource @vtc/abs/std/string_inst.cc
// @opt stl_model=True
// @assume printing of memory usage while scheduling is switched off
// @bounded step at most three units queued
// @bounded steps_in_order at most three units queued
// @bounded progress_between_units four units
// @bounded loop at most three units, four steps
// @bounded loop_runs_work at most three units, three steps
#include "vtc.h"
#include "vtc_ctx.h"
#include "vt/scheduler/scheduler.h"
#include "vt/runnable/make_runnable.h"
#include "vt/runtime/mpi_access.h"
#include "vt/runtime/runtime.h"
#include "vt/configs/arguments/app_config.h"
#include <cstdlib>
namespace vtc_env { alignas(64) inline unsigned char sched_mem[sizeof(vt::sched::Scheduler)], cfg_mem[sizeof(vt::arguments::AppConfig)], rt_mem[sizeof(vt::runtime::Runtime)]; inline double now=1.; }
extern "C" double MPI_Wtime() { return vtc_env::now; }
namespace vt { sched::Scheduler* theSched() { return reinterpret_cast<sched::Scheduler*>(vtc_env::sched_mem); } arguments::AppConfig* theConfig() { return reinterpret_cast<arguments::AppConfig*>(vtc_env::cfg_mem); } runtime::Runtime* curRT=reinterpret_cast<runtime::Runtime*>(vtc_env::rt_mem); }
using namespace vtc_env; using namespace vt; using namespace vt::sched; using SE=SchedulerEvent; using vt::runtime::ScopedMPIAccess;
struct Poll : runtime::component::Progressable { int progress(TimeType t) override { polled++; at=t.seconds(); if (arrives) { auto f=arrives; arrives=nullptr; f(); } return 0; } bool needsCurrentTime() override { return timed; } static inline int polled=0; static inline double at=0; static inline bool timed=false; static inline void (*arrives)()=nullptr; };
static int ran[4], nran, order[8]; static int ev[8], nev; static bool allowed_inside, traced_inside; static int at_unit_nev; static std::size_t left;
static void unit(int k) { ran[k]++; order[nran++]=k; allowed_inside|=ScopedMPIAccess::mpiCallsAllowed(); at_unit_nev=nev; left=theSched()->workQueueSize(); }
static Scheduler& init() { vtc_make_context(0,1); vtc_ctx->numNodes_=vtc::choose(2)?1:2; term_=reinterpret_cast<Term*>(std::calloc(1,sizeof(Term))); Term::nmaybe=0; nran=nev=0; for (int k=0;k<4;k++) ran[k]=0; allowed_inside=false; Poll::polled=0; Poll::arrives=nullptr; Poll::timed=false; now=1.; at_unit_nev=-1;
  auto* c=theConfig(); std::memset((void*)c,0,sizeof *c); c->vt_sched_num_progress=1; std::memset(rt_mem,0,sizeof rt_mem); auto* p=new runtime::component::ComponentPack; p->pollable_components_.push_back(new Poll); new (&curRT->p_) std::unique_ptr<runtime::component::ComponentPack>(p);
  std::memset(sched_mem,0,sizeof sched_mem); auto& s=*theSched(); new (&s.work_queue_) decltype(s.work_queue_)(); new (&s.event_triggers) decltype(s.event_triggers)(); new (&s.event_triggers_once) decltype(s.event_triggers_once)(); s.event_triggers.resize(7); s.event_triggers_once.resize(7); s.is_recent_time_stale_=true; s.is_idle=true; s.is_idle_minus_term=true; new (&s.suspended_) SuspendedUnits();
  ScopedMPIAccess::grants_=0; ScopedMPIAccess::default_prohibit_=false; return s; }
static void listen(Scheduler& s) { for (int k=0;k<6;k++) s.registerTrigger((SE)k,[k]{ ev[nev++]=k; }); }
static void put(Scheduler& s, bool term, int k) { if (term) s.enqueue(true,ActionType([k]{ unit(k); })); else s.enqueue(ActionType([k]{ unit(k); })); }
// one unit
CONTRACT(unit_run_once) { auto& s=init(); bool term=vtc::choose(2); auto d=vtc::any_in<unsigned>("units being run",0,1u<<20); s.action_depth_=d; ScopedMPIAccess::default_prohibit_=d>0; put(s,term,0); s.num_term_msgs_=vtc::any_in<std::size_t>("termination messages",term,1ul<<40); auto n0=s.num_term_msgs_; auto w=s.work_queue_.pop(); s.runWorkUnit(w);
  ENSURES("runs-once", (ran[0]==1)&(nran==1)); ENSURES("no-mpi-in-it", !allowed_inside); ENSURES("mpi-again-only-after-the-outermost", ScopedMPIAccess::mpiCallsAllowed()==(d==0)); ENSURES("depth-restored", s.action_depth_==d); ENSURES("termination-messages-counted-down", s.num_term_msgs_==n0-(std::size_t)term); ENSURES("not-queued-again", s.workQueueEmpty()); }
CONTRACT(unit_in_a_unit) { auto& s=init(); static bool after; after=true; s.enqueue(ActionType([]{ unit(0); auto& t=*theSched(); put(t,false,1); auto w=t.work_queue_.pop(); t.runWorkUnit(w); after=ScopedMPIAccess::mpiCallsAllowed(); })); auto w=s.work_queue_.pop(); s.runWorkUnit(w); ENSURES("each-once", (ran[0]==1)&(ran[1]==1)); ENSURES("still-no-mpi-in-the-outer", !after&!allowed_inside); ENSURES("mpi-afterwards", ScopedMPIAccess::mpiCallsAllowed()&(s.action_depth_==0)); }
CONTRACT(unit_with_mpi_open_refused) { auto& s=init(); put(s,false,0); auto w=s.work_queue_.pop(); ScopedMPIAccess open; vtc_expect_abort(1); s.runWorkUnit(w); ENSURES("refused", false); }
CONTRACT(recent_time_is_stale_after_a_unit) { auto& s=init(); now=vtc_symbolic()?vtc::any_in<int>("now",0,1000):5; auto a=s.getRecentTime(); ENSURES("now", a.seconds()==now); double t0=now; now=t0+1; ENSURES("kept", s.getRecentTime().seconds()==t0); put(s,false,0); auto w=s.work_queue_.pop(); s.runWorkUnit(w); ENSURES("asked-again", s.getRecentTime().seconds()==t0+1); }
// explicit access to MPI
CONTRACT(mpi_scope) { init(); bool p=vtc::any<bool>("prohibited"); ScopedMPIAccess::prohibitByDefault(p); ENSURES("default", ScopedMPIAccess::mpiCallsAllowed()==!p); ENSURES("user-calls-traced-only-when-open", ScopedMPIAccess::mpiCallsTraced()==!p); ENSURES("not-granted", !ScopedMPIAccess::isExplicitlyGranted()); { ScopedMPIAccess a; ENSURES("granted", ScopedMPIAccess::mpiCallsAllowed()&ScopedMPIAccess::isExplicitlyGranted()); ENSURES("own-calls-not-traced", !ScopedMPIAccess::mpiCallsTraced()); } ENSURES("grant-ends-with-its-scope", (ScopedMPIAccess::mpiCallsAllowed()==!p)&!ScopedMPIAccess::isExplicitlyGranted()); { ScopedMPIAccess a; } ENSURES("can-be-taken-again", ScopedMPIAccess::mpiCallsAllowed()==!p); }
CONTRACT(mpi_scope_in_a_scope_refused) { init(); ScopedMPIAccess::prohibitByDefault(vtc::choose(2)); ScopedMPIAccess a; vtc_expect_abort(1); ScopedMPIAccess b; ENSURES("refused", false); }
// one step
static int fill(Scheduler& s, bool* term) { int n=vtc::choose(4); for (int k=0;k<n;k++) { term[k]=vtc::choose(2); put(s,term[k],k); } return n; }
CONTRACT(step) { auto& s=init(); bool term[4]; int n=fill(s,term); bool idle=vtc::choose(2), idlet=vtc::choose(2); s.is_idle=idle; s.is_idle_minus_term=idlet; listen(s); int nt=0; for (int k=0;k<n;k++) nt+=term[k]; ENSURES("termination-messages-known", s.num_term_msgs_==(std::size_t)nt); s.runSchedulerOnceImpl(false);
  if (n>0) { ENSURES("oldest-runs-once", (nran==1)&(order[0]==0)); ENSURES("others-stay", s.workQueueSize()==(std::size_t)n-1); ENSURES("not-polled-while-there-is-work", Poll::polled==0); bool e1=idle, e2=idlet&(nt!=n); ENSURES("busy-announced-first", (nev==(int)e1+(int)e2)&(at_unit_nev==nev)&(!e1|(ev[0]==SE::EndIdle))&(!e2|(ev[e1]==SE::EndIdleMinusTerm))); ENSURES("busy", !s.is_idle&(s.is_idle_minus_term==(idlet&!e2))); ENSURES("counted", s.num_term_msgs_==(std::size_t)(nt-(int)term[0])); }
  else { ENSURES("polled-when-there-is-nothing-to-do", Poll::polled==1); ENSURES("single-node-checks-termination-itself", Term::nmaybe==(vtc_ctx->numNodes_==1)); ENSURES("idle-announced", (nran==0)&(nev==(int)!idle+(int)!idlet)&(idlet|(ev[0]==SE::BeginIdleMinusTerm))&(idle|(ev[!idlet]==SE::BeginIdle))); ENSURES("idle", s.is_idle&s.is_idle_minus_term); } ENSURES("has-run", s.hasSchedRun()); }
CONTRACT(step_arrival) { auto& s=init(); listen(s); s.is_idle=vtc::choose(2); Poll::arrives=[]{ put(*theSched(),false,2); }; s.runSchedulerOnceImpl(false); ENSURES("work-found-by-polling-runs-at-once", (nran==1)&(ran[2]==1)&s.workQueueEmpty()); }
CONTRACT(steps_in_order) { auto& s=init(); bool term[4]; int n=fill(s,term); for (int k=0;k<4;k++) s.runSchedulerOnceImpl(false); ENSURES("all-run", nran==n); for (int k=0;k<n;k++) ENSURES("once-each-in-order", order[k]==k); ENSURES("none-left", s.workQueueEmpty()&(s.num_term_msgs_==0)&s.isIdle()); }
CONTRACT(nothing_left_but_termination) { auto& s=init(); bool term[4]; int n=fill(s,term), nt=0; for (int k=0;k<n;k++) nt+=term[k]; ENSURES("idle-but-for-termination", s.isIdleMinusTerm()==(nt==n)); ENSURES("idle", s.isIdle()==(n==0)); }
// progress in between: after every so many units, or after so much time, as asked for
CONTRACT(progress_due) { auto& s=init(); auto* c=theConfig(); auto han=vtc::any_in<int32_t>("units between",0,1<<30); c->vt_sched_progress_han=han; bool timed=vtc::choose(2); double every=vtc::any_in<int>("seconds between",1,1000), since=vtc::any_in<int>("seconds since",0,2000); c->vt_sched_progress_sec=timed?every:0.; s.progress_time_enabled_=timed; auto done=vtc::any_in<int32_t>("units since",0,1<<30); bool r=s.shouldCallProgress(done,TimeType{since});
  ENSURES("due-iff-asked-for", r==((!timed&(han==0)) | (timed&(since>every)) | ((han!=0)&(done>=han)))); }
CONTRACT(progress_between_units) { auto& s=init(); auto* c=theConfig(); int han=1+vtc::choose(3); c->vt_sched_progress_han=han; s.Scheduler::startup(); ENSURES("asked-for", s.special_progress_); for (int k=0;k<4;k++) put(s,false,k); int polls=0; for (int k=0;k<4;k++) { s.runSchedulerOnceImpl(false); polls+=((k%han==0)&(k>0)); ENSURES("polled-after-that-many-units", Poll::polled==polls); ENSURES("and-a-unit-run", nran==k+1); } }
CONTRACT(progress_repeated) { auto& s=init(); int k=vtc::any_in<int>("rounds",-3,3); vtc_concretize(k); theConfig()->vt_sched_num_progress=k; Poll::timed=vtc::choose(2); now=7.; s.runSchedulerOnceImpl(false); ENSURES("as-often-as-asked-but-at-least-once", Poll::polled==(k<1?1:k)); ENSURES("time-when-wanted", Poll::at==(Poll::timed?7.:0.)); }
// the loop
static int todo;
CONTRACT(loop) { auto& s=init(); listen(s); bool idle=vtc::choose(2); s.is_idle=idle; int n=vtc::choose(4); for (int k=0;k<n;k++) put(s,false,k); todo=vtc::choose(5); auto d=vtc::any_in<unsigned>("depth",0,1000); s.in_sched_depth_=d; static unsigned depth; depth=d; static bool deeper; deeper=true; s.runSchedulerWhile([]{ deeper&=theSched()->getSchedulerDepth()==depth+1; return todo-->0; }); 
  int steps=todo+1; (void)steps; ENSURES("stops-when-told", todo==-1); ENSURES("depth-kept", deeper&(s.in_sched_depth_==d)); ENSURES("begins-and-ends", (ev[0]==SE::BeginSchedulerLoop)&(ev[nev-1]==SE::EndSchedulerLoop)); ENSURES("not-idle-between-loops", !s.is_idle); int bal=idle; for (int k=0;k<nev;k++) { if (ev[k]==SE::BeginIdle) { ENSURES("idle-begins-after-it-ended", bal==0); bal++; } if (ev[k]==SE::EndIdle) { ENSURES("idle-ends-after-it-began", bal==1); bal--; } } ENSURES("idle-balanced", bal==0); }
CONTRACT(loop_runs_work) { auto& s=init(); int n=vtc::choose(4); for (int k=0;k<n;k++) put(s,false,k); int m=vtc::choose(4); todo=m; s.runSchedulerWhile([]{ return todo-->0; }); int x=n<m?n:m; ENSURES("one-unit-a-step", nran==x); for (int k=0;k<x;k++) ENSURES("in-order", order[k]==k); ENSURES("rest-stays", s.workQueueSize()==(std::size_t)(n-x)); }
// triggers
CONTRACT(triggers) { auto& s=init(); int e=vtc::choose(7), f=vtc::choose(7); static int a,b; a=b=0; s.registerTrigger((SE)e,[]{ a++; }); s.registerTriggerOnce((SE)e,[]{ b++; }); ENSURES("not-yet", (a==0)&(b==0)); s.triggerEvent((SE)f); ENSURES("its-event-only", (a==(e==f))&(b==(e==f))); s.triggerEvent((SE)e); s.triggerEvent((SE)e); ENSURES("each-time", a==2+(e==f)); ENSURES("the-one-time-ones-once", b==1); }
CONTRACT(one_time_trigger_nested) { auto& s=init(); static SE e; e=(SE)vtc::choose(7); static int a,b,c; a=b=c=0; s.registerTriggerOnce(e,[]{ a++; if (a<3) theSched()->triggerEvent(e); }); s.registerTriggerOnce(e,[]{ b++; if (b==1) theSched()->registerTriggerOnce(e,[]{ c++; }); }); s.triggerEvent(e); ENSURES("once", (a==1)&(b==1)); s.triggerEvent(e); ENSURES("still-once", (a==1)&(b==1)&(c==1)); }
