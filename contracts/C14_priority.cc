// Priority words: one field per level; the queue hands out a unit of highest priority.
// @source vt/scheduler/priority_manip.cc
// @config prio
// @bounded queue_hands_out_the_highest queues of at most 4 units
// @bounded queue_keeps_every_unit queues of at most 4 units
#include "vtc.h"
#define private public
#define protected public
#include "vt/scheduler/priority.h"
#include "vt/scheduler/priority_manip.h"
#include "vt/scheduler/priority_queue.h"
#include "vt/messaging/envelope.h"
#include "vt/messaging/message/message_priority.h"
#include "vt/messaging/message/message_priority.impl.h"
#undef private
#undef protected
using namespace vt; using namespace vt::sched; using PM=PriorityManip;
static unsigned const W=priority_level_bits, L=priority_num_levels, ALL=(1u<<W)-1, MID=ALL/2;
// the documented layout: level 0 in the most significant bits, the remainder unused at the low end
static unsigned field(PriorityType w, unsigned lvl) { return (w>>(16-W*(lvl+1)))&ALL; }
static PriorityLevelType anyLevel(char const* n) { return vtc::any_in<PriorityLevelType>(n,0,L-1); }
CONTRACT(layout) { ENSURES("levels-fit-the-word", (L*W<=16)&(16<(L+1)*W)&(UserLevelMax==L-1)&(SystemLevel==0)&(UserLevelMin==1)&(priority_remainder==16-L*W)); }
CONTRACT(set_priority) {
  auto w=vtc::any<PriorityType>("word"), old=w, p=vtc::any<PriorityType>("priority"); auto l=anyLevel("level"), o=anyLevel("other level"); REQUIRES(o!=l);
  PM::setPriority(w,l,p);
  ENSURES("level-holds-the-priority", field(w,l)==(p&ALL)); ENSURES("other-levels-keep-theirs", field(w,o)==field(old,o)); ENSURES("unused-bits-untouched", (w&((1u<<priority_remainder)-1))==(old&((1u<<priority_remainder)-1)));
  ENSURES("reads-back", PM::getPriority(w,l)==(p&ALL));
}
CONTRACT(get_priority) { auto w=vtc::any<PriorityType>("word"), old=w; auto l=anyLevel("level"); ENSURES("reads-its-level", PM::getPriority(w,l)==field(w,l)); ENSURES("read-only", w==old); }
CONTRACT(order_is_lexicographic) { // the word with the higher priority on the first differing level is the greater word
  auto a=vtc::any<PriorityType>("a"), b=vtc::any<PriorityType>("b"); auto l=anyLevel("first differing level"); for (unsigned k=0;k<L;k++) REQUIRES(vtc::implies(k<l,field(a,k)==field(b,k)));
  REQUIRES(PM::getPriority(a,l)>PM::getPriority(b,l)); ENSURES("higher-level-decides", a>b);
  PriorityUnit ua(false,PriorityUnit::RunnablePtrType(nullptr),a), ub(false,PriorityUnit::RunnablePtrType(nullptr),b); ENSURES("units-compare-by-priority", (ub<ua)&!(ua<ub));
}
CONTRACT(units_compare) { auto a=vtc::any<PriorityType>("a"), b=vtc::any<PriorityType>("b"); PriorityUnit ua(vtc::any<bool>("t"),PriorityUnit::RunnablePtrType(nullptr),a), ub(vtc::any<bool>("u"),PriorityUnit::RunnablePtrType(nullptr),b); ENSURES("less-iff-lower-priority", (ua<ub)==(a<b)); }
CONTRACT(named_priorities) {
  auto l=vtc::any_in<unsigned>("array index",0,L-1), k=vtc::any_in<unsigned>("level",0,L-1);
  ENSURES("medium-then-lowest", field(medium_priority[l],k)==vtc::ite(k<=l,MID,0u)); ENSURES("medium-then-breadth-first", field(breadth_priority[l],k)==vtc::ite(k<=l,MID,ALL)); ENSURES("default-is-medium-on-every-level", field(default_priority,k)==MID);
  unsigned rem=(1u<<priority_remainder)-1; ENSURES("unused-bits-clear", ((medium_priority[l]|default_priority)&rem)==0);
  ENSURES("range", (sys_min_priority<=min_priority)&(min_priority<=default_priority)&(default_priority<=max_priority)&(max_priority<=sys_max_priority));
  ENSURES("breadth-is-above-medium", breadth_priority[l]>=medium_priority[l]);
  ENSURES("bounds", (sys_max_priority==breadth_priority[0])&(max_priority==breadth_priority[1])&(min_priority==medium_priority[0])&(sys_min_priority==0));
}
struct U { PriorityType p; int id; friend bool operator<(U const& a, U const& b) { return PriorityUnit(false,PriorityUnit::RunnablePtrType(nullptr),a.p)<PriorityUnit(false,PriorityUnit::RunnablePtrType(nullptr),b.p); } };
CONTRACT(queue_hands_out_the_highest) {
  PriorityQueue<U> q; unsigned n=1+vtc::choose(4); PriorityType p[4]; bool out[4]={false,false,false,false};
  for (unsigned i=0;i<n;i++) { p[i]=vtc::any<PriorityType>("priority"); if (i&1) q.push(U{p[i],(int)i}); else q.emplace(U{p[i],(int)i}); ENSURES("size", (q.size()==i+1)&!q.empty()); }
  for (unsigned k=0;k<n;k++) { auto u=q.pop(); ENSURES("is-a-live-unit", (u.id>=0)&(u.id<(int)n)&!out[u.id]&(u.p==p[u.id])); out[u.id]=true; bool ok=true; for (unsigned i=0;i<n;i++) ok=ok&(out[i]|(p[i]<=u.p)); ENSURES("highest-priority-first", ok); }
  ENSURES("empty-at-the-end", q.empty()&(q.size()==0));
}
CONTRACT(queue_keeps_every_unit) { // interleaved pushes and pops
  PriorityQueue<U> q; PriorityType p[4]; bool in[4]={false,false,false,false}; unsigned n=0, live=0;
  for (unsigned s=0;s<6;s++) { if (n<4 && (live==0 || vtc::choose(2))) { p[n]=vtc::any<PriorityType>("priority"); q.push(U{p[n],(int)n}); in[n]=true; n++; live++; } else if (live) { auto u=q.pop(); ENSURES("is-a-live-unit", (u.id>=0)&(u.id<(int)n)&in[u.id]); in[u.id]=false; live--; bool ok=true; for (unsigned i=0;i<n;i++) ok=ok&(!in[i]|(p[i]<=u.p)); ENSURES("highest-priority-first", ok); } ENSURES("size", q.size()==live); }
}
struct Msg { Envelope env; };
static void anyMsg(Msg& m, char const* n) { vtc::havoc(m.env,n); REQUIRES(!envelopeIsLocked(m.env)); REQUIRES(envelopeGetPriorityLevel(m.env)<L); }
static void levels(PriorityType w, PriorityType base, unsigned lvl, PriorityType p, unsigned k) {
  ENSURES("outer-levels-keep-theirs", vtc::implies(k<lvl,field(w,k)==field(base,k))); ENSURES("own-level", field(w,lvl)==(p&ALL)); ENSURES("inner-levels-default-to-lowest-or-breadth-first", vtc::implies(k>lvl,field(w,k)==vtc::ite(p==BreadthFirst,ALL,0u)));
}
CONTRACT(message_priority) {
  Msg m; anyMsg(m,"message"); auto p=vtc::any<PriorityType>("priority"); bool inc=vtc::any<bool>("increment"); auto k=anyLevel("level");
  messaging::msgSetPriority(&m,p,inc); ENSURES("level", envelopeGetPriorityLevel(m.env)==(inc?1:0)); levels(envelopeGetPriority(m.env),min_priority,inc?1:0,p,k);
}
CONTRACT(message_priority_from) {
  Msg o,m; anyMsg(o,"from"); anyMsg(m,"message"); auto p=vtc::any<PriorityType>("priority"); bool inc=vtc::any<bool>("increment"); auto k=anyLevel("level"); unsigned ol=envelopeGetPriorityLevel(o.env); auto op=envelopeGetPriority(o.env);
  messaging::msgSetPriorityFrom(&o,&m,p,inc); unsigned lvl=ol; if (inc & (ol+1<L)) lvl=ol+1;
  ENSURES("level", envelopeGetPriorityLevel(m.env)==lvl); levels(envelopeGetPriority(m.env),op,lvl,p,k); ENSURES("parent-untouched", (envelopeGetPriority(o.env)==op)&(envelopeGetPriorityLevel(o.env)==ol));
}
CONTRACT(message_levels) {
  Msg o,m; anyMsg(o,"from"); anyMsg(m,"message"); unsigned ol=envelopeGetPriorityLevel(o.env), ml=envelopeGetPriorityLevel(m.env); auto mp=envelopeGetPriority(m.env);
  bool r=messaging::msgIncPriorityLevel(&o,&m); ENSURES("deepens-until-the-last-level", (r==(ol+1<L))&(envelopeGetPriorityLevel(m.env)==vtc::ite(r,ol+1,ml))); ENSURES("priority-untouched", envelopeGetPriority(m.env)==mp);
  auto l=anyLevel("new level"); messaging::msgSetPriorityLevel(&m,l); ENSURES("level", (envelopeGetPriorityLevel(m.env)==l)&(envelopeGetPriority(m.env)==mp));
  auto p=vtc::any<PriorityType>("all levels"); messaging::msgSetPriorityAllLevels(&m,p); ENSURES("whole-word", (envelopeGetPriority(m.env)==p)&(envelopeGetPriorityLevel(m.env)==l));
}
CONTRACT(system_priority) {
  Msg m; anyMsg(m,"message"); auto p=vtc::any<PriorityType>("priority"); messaging::msgSystemSetPriority(&m,p); auto k=vtc::any_in<unsigned>("level",1,L-1); auto w=envelopeGetPriority(m.env);
  ENSURES("system-level-only", (envelopeGetPriorityLevel(m.env)==0)&(field(w,0)==(p&ALL))&(field(w,k)==0));
}
CONTRACT(higher_message_runs_first) { // messages given named priorities on the same level of the same parent
  Msg o,a,b; anyMsg(o,"parent"); anyMsg(a,"a"); anyMsg(b,"b"); auto pa=vtc::any_in<PriorityType>("priority of a",0,ALL), pb=vtc::any_in<PriorityType>("priority of b",0,ALL); REQUIRES(pa>pb); bool inc=vtc::any<bool>("increment");
  messaging::msgSetPriorityFrom(&o,&a,pa,inc); messaging::msgSetPriorityFrom(&o,&b,pb,inc);
  PriorityUnit ua(false,PriorityUnit::RunnablePtrType(nullptr),envelopeGetPriority(a.env)), ub(false,PriorityUnit::RunnablePtrType(nullptr),envelopeGetPriority(b.env)); ENSURES("higher-runs-first", ub<ua);
}
