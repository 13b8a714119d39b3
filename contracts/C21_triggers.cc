// Time triggers: which actions run when, for any trigger times.
// @source vt/timetrigger/time_trigger_manager.cc
// @opt stl_model=True
// @opt fporder=True
// @symsource @vtc/abs/std/string_inst.cc
// @replace Trigger15nextTriggerTimeEv => vtc_next
// @assume the order and readiness of triggers is checked for any next trigger time that is not before the last one; that the real next trigger time is never before the last one is the contract next_time
// @bounded pass up to three triggers queued
// @bounded pass_nested up to two triggers queued
#include "vtc.h"
#include "vt/timetrigger/time_trigger_manager.h"
#include <cmath>
using namespace vt; using namespace vt::timetrigger; using ms=std::chrono::milliseconds;
static double first_next[8], later_next[8]; static bool moved[8];
static double cur; static int runs[8], order[8], nruns;
// contract of nextTriggerTime: some time, the same as long as the trigger did not run, never before the last time it ran
extern "C" double vtc_next(Trigger const* t) { int k=t->id_; double last=t->last_trigger_time_.seconds(); bool m=last==cur; return m?later_next[k]:first_next[k]; }
static double any_time(const char* n) { double d=vtc::any<double>(n); REQUIRES((d>=0.0)&(d<=1e10)); return d; }
static TimeTriggerManager& manager() { nruns=0; for (int k=0;k<8;k++) runs[k]=0; return *new TimeTriggerManager; }
#ifdef VTC_NATIVE
static double draw(const char* n, double lo, double hi) { return lo+(hi-lo)*(vtc::any_in<uint32_t>(n,0,1000)/1000.0); }
#endif
struct Act { int k; void operator()() const { runs[k]++; order[nruns&7]=k; nruns++; } };
static TimeTriggerManager* M; static int extra; static double late;
struct Nest { int k; void operator()() const { runs[k]++; order[nruns&7]=k; nruns++; if (extra==1) M->removeTrigger(1-k); else if (extra==2) M->triggerReady(TimeType{cur}); else if (extra==3) M->removeTrigger(k); else if (extra==4 && k==0) M->addTrigger(TimeType{late},ms{5},Act{2}); } };
// k-th trigger: last run before now, due at any time
template <typename A> static void add(TimeTriggerManager& m, int k) {
  int id;
#ifdef VTC_NATIVE
  double last=draw("last",0,cur*0.999); int period=(int)(draw("due after",0,2*cur)*1000); id=m.addTrigger(TimeType{last},ms{period},A{k});
  first_next[k]=m.queue_.top().nextTriggerTime().seconds(); for (auto const& t : m.queue_.c) if (t.id_==k) first_next[k]=t.nextTriggerTime().seconds();
#else
  double last=any_time("last"); REQUIRES(last<cur); first_next[k]=any_time("next"); later_next[k]=any_time("next after running"); REQUIRES((first_next[k]>=last)&(later_next[k]>=cur));
  id=m.addTrigger(TimeType{last},ms{1},A{k});
#endif
  ENSURES("ids-are-handed-out-in-order", id==k);
}
CONTRACT(pass) {
  auto& m=manager();
#ifdef VTC_NATIVE
  cur=draw("now",1,100);
#else
  cur=any_time("now");
#endif
  int n=vtc::choose(4); for (int k=0;k<n;k++) add<Act>(m,k);
  bool removed[3]={false,false,false}; for (int k=0;k<n;k++) if (vtc::choose(2)) { removed[k]=true; m.removeTrigger(k); }
  ENSURES("needs-the-time-while-triggers-exist", m.needsCurrentTime()==(n>0)); ENSURES("adding-and-removing-runs-nothing", nruns==0);
  m.progress(TimeType{cur}); int left=0;
  for (int k=0;k<n;k++) { bool due=first_next[k]<cur; ENSURES("due-and-not-removed-runs-once-others-do-not", runs[k]==(int)(due&!removed[k]));
    int c=0; double last=0; for (auto const& t : m.queue_.c) if (t.id_==k) { c++; last=t.last_trigger_time_.seconds(); }
    ENSURES("stays-queued-once-unless-removed-and-due", c==(int)!(due&removed[k])); if (c==1) ENSURES("run-time-recorded", (last==cur)==(due&!removed[k])); left+=c;
    ENSURES("removal-done-once-due", (m.removed_.find(k)!=m.removed_.end())==(removed[k]&!due)); }
  ENSURES("nothing-else-queued", (int)m.queue_.size()==left);
  for (int j=0;j+1<nruns;j++) ENSURES("earliest-first", first_next[order[j]]<=first_next[order[j+1]]);
  int before=nruns; m.progress(TimeType{cur}); ENSURES("a-second-pass-at-the-same-time-runs-nothing", nruns==before);
}
CONTRACT(pass_nested) { // actions that remove triggers or make progress themselves
  auto& m=manager(); M=&m; extra=1+vtc::choose(4);
#ifdef VTC_NATIVE
  cur=draw("now",1,100);
#else
  cur=any_time("now");
#endif
  for (int k=0;k<2;k++) add<Nest>(m,k);
#ifdef VTC_NATIVE
  late=draw("late",0,cur*0.999); first_next[2]=late+0.005;
#else
  late=any_time("late"); first_next[2]=any_time("next"); later_next[2]=any_time("next after running"); REQUIRES((late<cur)&(first_next[2]>=late)&(later_next[2]>=cur));
#endif
  bool d0=first_next[0]<cur, d1=first_next[1]<cur, both=d0&d1; m.triggerReady(TimeType{cur});
  if (extra==1) { ENSURES("removed-by-the-other-action-does-not-run", nruns==(int)(d0|d1)); ENSURES("removed-trigger-leaves", m.queue_.size()==(both?1u:2u)); }
  else { ENSURES("each-due-trigger-runs-once", (runs[0]==(int)d0)&(runs[1]==(int)d1)); if (extra==4 && d0) { bool d2=first_next[2]<cur; ENSURES("added-trigger-runs-if-due", runs[2]==(int)d2); int c=0; for (auto const& t : m.queue_.c) c|=1<<t.id_; ENSURES("each-queued-once", (c==7)&(m.queue_.size()==3)); } else ENSURES("still-queued", m.queue_.size()==2); }
  if (extra==3) ENSURES("remembered-for-removal", ((m.removed_.find(0)!=m.removed_.end())==d0) && ((m.removed_.find(1)!=m.removed_.end())==d1));
}
CONTRACT(add_trigger) {
  auto& m=manager(); m.next_trigger_id_=vtc::any_in<int>("next id",0,5); int id0=m.next_trigger_id_; double now=any_time("now"); cur=-1.0; for (int k=0;k<8;k++) first_next[k]=later_next[k]=0.0; bool fire=vtc::choose(2); int p=vtc::any_in<int>("period",0,1000000000); int w=vtc_concretize(id0);
  int id=m.addTrigger(TimeType{now},ms{p},Act{w},fire); ENSURES("next-id", (id==id0)&(m.next_trigger_id_==id0+1)); ENSURES("queued", m.queue_.size()==1); ENSURES("runs-at-once-only-when-asked", (nruns==(int)fire)&(runs[w]==(int)fire));
  auto t=m.queue_.top(); ENSURES("starts-counting-from-now", t.getLastTriggerTime().seconds()==now); ENSURES("id-and-period-kept", (t.getID()==id)&(t.period_.count()==p)); ENSURES("needs-the-time", m.needsCurrentTime());
}
CONTRACT(order) {
  auto id=[](int k,double l) { Trigger t{ms{1},nullptr,k}; t.setLastTriggerTime(TimeType{l}); return t; };
#ifdef VTC_NATIVE
  Trigger a{ms{(int)draw("period",0,1e6)},nullptr,0}, b{ms{(int)draw("period",0,1e6)},nullptr,1}; double now=draw("now",1,2000);
#else
  cur=-1.0; first_next[0]=any_time("a"); first_next[1]=any_time("b"); auto a=id(0,0.0), b=id(1,0.0); double now=any_time("now");
#endif
  double x=a.nextTriggerTime().seconds(), y=b.nextTriggerTime().seconds();
  ENSURES("later-next-time-orders-lower", (a<b)==(x>y)); ENSURES("ready-once-its-time-passed", a.ready(TimeType{now})==(x<now)); ENSURES("none-later-is-ready-if-the-top-is-not", vtc::implies(!a.ready(TimeType{now})&!(a<b), !b.ready(TimeType{now})));
}
