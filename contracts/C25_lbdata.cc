// Load and communication data of an element: every amount is accounted once, to its phase and subphase.
// @source vt/elm/elm_lb_data.cc vt/elm/elm_id.cc vt/elm/elm_id_bits.cc vt/context/context.cc vt/timing/timing.cc
// @opt stl_model=True
// @bounded started_and_stopped at most four subphases
// @bounded time at most four subphases
// @bounded communication at most three subphases
// @bounded replaced_by_user at most three subphases
#include "vtc.h"
#include "vtc_ctx.h"
#include "vt/elm/elm_lb_data.h"
#include "vt/elm/elm_id_bits.h"
#include "vt/timing/timing.h"
using namespace vt; using namespace vt::elm; using Id=ElementIDStruct; using K=CommKey;
struct LD : ElementLBData { using ElementLBData::releaseLBDataFromUnneededPhases; };
static double amount(const char* n) { if (vtc_symbolic()) return vtc::any<double>(n); return (double)vtc::any_in<int>(n,0,1<<20); }
static bool is(double a, double b) { uint64_t x, y; __builtin_memcpy(&x,&a,8); __builtin_memcpy(&y,&b,8); return x==y; }
static Id el(const char* n) { return Id{vtc::any<uint64_t>(n),vtc::any<NodeType>(n)}; }
static PhaseType phase(const char* n) { return vtc::any<PhaseType>(n); }
static LD d; static PhaseType p, q; static double whole, other, part[4]; static int have, cur;
// any history before: what is recorded for this phase and for another one
static void any_past(int lim=4) { vtc_make_context(0,1); new (&d) LD(); p=phase("phase"); q=phase("another phase"); REQUIRES(p!=q); d.cur_phase_=p; have=vtc::choose(lim); cur=vtc::choose(lim); d.setSubPhase(cur); ENSURES("subphase-set", d.getSubPhase()==cur);
  whole=amount("load so far"); other=amount("load of the other phase"); if (have||vtc::choose(2)) { d.phase_timings_[p]=whole; auto& v=d.subphase_timings_[p]; for (int k=0;k<have;k++) { part[k]=amount("load of a subphase"); v.push_back(part[k]); } } else whole=0; d.phase_timings_[q]=other; d.subphase_timings_[q].push_back(other); }
static void check_time(double added) { auto const& v=d.getSubphaseTimes(p); ENSURES("phase-has-it-once", is(d.getLoad(p),whole+added)); ENSURES("phase-has-it-once", is(d.getLoad(p,ElementLBData::no_subphase),whole+added)); int want=have>cur+1?have:cur+1; ENSURES("subphases-kept", (int)v.size()==want); for (int k=0;k<want;k++) { double was=k<have?part[k]:0.; ENSURES("subphase-has-it-once", is(d.getLoad(p,(SubphaseType)k),k==cur?was+added:was)); } ENSURES("other-phase-untouched", is(d.getLoad(q),other) && is(d.getLoad(q,(SubphaseType)0),other) && d.getSubphaseTimes(q).size()==1); }
CONTRACT(time) { any_past(); double t=amount("time"); d.addTime(t); check_time(t); }
CONTRACT(started_and_stopped) { any_past(); double a=amount("start"), b=amount("stop"), t=b-a; d.start(TimeType{a}); ENSURES("nothing-yet", is(d.getLoad(p),whole)); d.stop(TimeType{b}); check_time(t); d.stop(TimeType{b+1}); check_time(t); }
// any number of subphases recorded before, none of them new
CONTRACT(time_any_subphases) { vtc_make_context(0,1); new (&d) LD(); p=phase("phase"); d.cur_phase_=p; auto n=vtc::any_in<uint64_t>("subphases",1,vtc_symbolic()?65535:40); auto c=vtc::any_in<uint16_t>("subphase",0,vtc_symbolic()?65534:39); REQUIRES(c<n); double* a=vtc::any_array<double>("loads",n); whole=amount("load so far"); d.phase_timings_[p]=whole; auto& v=d.subphase_timings_[p]; if (vtc_symbolic()) { v._M_impl._M_start=a; v._M_impl._M_finish=v._M_impl._M_end_of_storage=a+n; } else v.assign(a,a+n); auto k=vtc::any_in<uint64_t>("any of them",0,vtc_symbolic()?65535:39); REQUIRES(k<n); double was=v[k]; d.setSubPhase(c); double t=amount("time"); d.addTime(t); ENSURES("subphases-kept", v.size()==n); if (k==c) ENSURES("added-once", is(v[k],was+t)); else ENSURES("others-untouched", is(v[k],was)); ENSURES("phase-has-it-once", is(d.getLoad(p),whole+t)); if (vtc_symbolic()) vtc_stop(); }
CONTRACT(not_started) { any_past(); d.stop(TimeType{amount("stop")}); ENSURES("nothing-added", is(d.getLoad(p),whole) && (int)d.getSubphaseTimes(p).size()==have); }
CONTRACT(replaced_by_user) { any_past(); double t=amount("load"); int n=vtc::choose(4); std::vector<LoadType> v; for (int k=0;k<n;k++) v.push_back(amount("part")); d.setTime(t,v); ENSURES("replaced", is(d.getLoad(p),t) && d.getSubphaseTimes(p).size()==v.size() && std::equal(v.begin(),v.end(),d.getSubphaseTimes(p).begin(),is)); ENSURES("other-phase-untouched", is(d.getLoad(q),other)); }
static K key(int kind, Id a, Id b, NodeType n, int s, bool bc) { switch (kind) { case 0: return K(K::SendRecvTag{},a,b,bc); case 1: return K(K::CollectionTag{},a,b,bc); case 2: return K(K::CollectionToNodeTag{},a,n,bc); case 3: return K(K::NodeToCollectionTag{},n,b,bc); case 4: return K(K::WriteSharedTag{},n,s); default: return K(K::ReadOnlySharedTag{},n,s); } }
static bool same(K const& x, K const& y) { return (x.from_.id==y.from_.id)&(x.to_.id==y.to_.id)&(x.nfrom_==y.nfrom_)&(x.nto_==y.nto_)&(x.cat_==y.cat_)&(x.shared_id_==y.shared_id_); }
CONTRACT(key_means) { int kind=vtc::choose(6); Id a=el("from"), b=el("to"); auto n=vtc::any<NodeType>("node"); int s=vtc::any<int>("shared"); bool bc=vtc::any<bool>("broadcast"); K k=key(kind,a,b,n,s,bc);
  switch (kind) {
  case 0: case 1: ENSURES("category", k.commCategory()==(bc?CommCategory::Broadcast:CommCategory::SendRecv)); ENSURES("ends", (k.fromObj()==a)&(k.toObj()==b)&(k.fromObj().curr_node==a.curr_node)&(k.toObj().curr_node==b.curr_node)); ENSURES("between-nodes", k.offNode()==(bc||(a.curr_node!=b.curr_node))); ENSURES("to-itself", k.selfEdge()==(!bc&(a.id==b.id))); break;
  case 2: ENSURES("category", k.commCategory()==(bc?CommCategory::CollectionToNodeBcast:CommCategory::CollectionToNode)); ENSURES("ends", (k.fromObj()==a)&(k.toNode()==(ElementIDType)n)); ENSURES("between-nodes", k.offNode()==(bc||(a.curr_node!=n))); break;
  case 3: ENSURES("category", k.commCategory()==(bc?CommCategory::NodeToCollectionBcast:CommCategory::NodeToCollection)); ENSURES("ends", (k.toObj()==b)&(k.fromNode()==(ElementIDType)n)); ENSURES("between-nodes", k.offNode()==(bc||(b.curr_node!=n))); break;
  default: ENSURES("category", k.commCategory()==(kind==4?CommCategory::WriteShared:CommCategory::ReadOnlyShared)); ENSURES("ends", (k.toNode()==(ElementIDType)n)&(k.sharedID()==s)); ENSURES("between-nodes", k.offNode()); }
  ENSURES("on-node-is-not-off-node", k.onNode()==!k.offNode()); }
CONTRACT(key_identity) { K x=key(vtc::choose(6),el("a"),el("b"),vtc::any<NodeType>("n"),vtc::any<int>("s"),vtc::any<bool>("bc")), y=key(vtc::choose(6),el("c"),el("d"),vtc::any<NodeType>("m"),vtc::any<int>("t"),vtc::any<bool>("cc")); ENSURES("equal-iff-same-edge", (x==y)==same(x,y)); ENSURES("equal-hash-equal", !same(x,y) || std::hash<K>()(x)==std::hash<K>()(y)); K z=x; ENSURES("reflexive", z==x); }
// communication: any edge, either direction of recording
CONTRACT(communication) { any_past(3); Id a=el("from"), b=el("to"); auto n=vtc::any<NodeType>("node"); int s=vtc::any<int>("shared"); bool bc=vtc::choose(2); int kind=vtc::choose(7); K k=key(kind==6?0:kind,a,b,n,s,kind==6||kind>=4?false:bc), o=key(vtc::choose(2)?0:5,el("c"),el("d"),vtc::any<NodeType>("m"),vtc::any<int>("t"),false); REQUIRES(!same(k,o)); double was=amount("bytes so far"), by=amount("bytes"), ob=amount("bytes of another"); uint64_t m=vtc::any_in<uint64_t>("messages so far",0,1u<<30); bool seen=vtc::choose(2);
  auto& pc=d.phase_comm_[p]; auto& sc=d.subphase_comm_[p]; sc.resize(have); if (seen) pc[k]=CommVolume{was,m}; else { was=0; m=0; } pc[o]=CommVolume{ob,3}; for (int j=0;j<have;j++) { if (seen) sc[j][k]=CommVolume{was,m}; sc[j][o]=CommVolume{ob,3}; } d.phase_comm_[q][k]=CommVolume{ob,5};
  switch (kind) { case 0: case 1: d.recvObjData(b,a,by,bc); break; case 2: d.recvToNode(n,a,by,bc); break; case 3: d.recvFromNode(b,n,by,bc); break; case 4: d.addWritableSharedID(n,s,by); break; case 5: d.addReadOnlySharedID(n,s,by); break; default: d.sendToEntity(b,a,by); }
  auto const& c=d.getComm(p); ENSURES("counted-once", c.at(k).messages==m+1 && is(c.at(k).bytes,was+by)); ENSURES("others-untouched", c.at(o).messages==3 && is(c.at(o).bytes,ob) && c.size()==2); auto const& v=d.getSubphaseComm(p); int want=have>cur+1?have:cur+1; ENSURES("subphases-kept", (int)v.size()==want); for (int j=0;j<want;j++) { bool old=seen&(j<have); uint64_t em=(old?m:0)+(j==cur); double eb=old?was:0.; if (j==cur) eb+=by; auto it=v[j].find(k); ENSURES("counted-in-its-subphase", (it!=v[j].end())==(old|(j==cur)) && (it==v[j].end() || (it->second.messages==em && is(it->second.bytes,eb)))); auto io=v[j].find(o); ENSURES("others-untouched", (io!=v[j].end())==(j<have) && (io==v[j].end() || (io->second.messages==3 && is(io->second.bytes,ob)))); } ENSURES("other-phase-untouched", d.getComm(q).at(k).messages==5); ENSURES("load-untouched", is(d.getLoad(p),whole)); }
CONTRACT(volume) { CommVolume a{amount("a"),vtc::any<uint64_t>("n")}, b{amount("b"),vtc::any<uint64_t>("m")}, c=a; c+=b; ENSURES("sum", is(c.bytes,a.bytes+b.bytes) && c.messages==a.messages+b.messages); }
// phases
CONTRACT(phases) { any_past(); auto n=phase("next phase"); int how=vtc::choose(3); if (how==0) d.setPhase(n); else if (how==1) { auto i=phase("increment"); n=p+i; d.updatePhase(i); } else { n=fst_lb_phase; d.resetPhase(); } ENSURES("phase-is", d.getPhase()==n); if (how<2) ENSURES("entry-exists", n==0 || (d.phase_timings_.count(n) && d.subphase_timings_.count(n) && d.phase_comm_.count(n) && d.subphase_comm_.count(n))); ENSURES("recorded-stays", is(d.getLoad(p),whole)&is(d.getLoad(q),other)); REQUIRES((n!=p)&(n!=q)); ENSURES("starts-from-nothing", is(d.getLoad(n),0.)); double t=amount("time"); d.addTime(t); ENSURES("accounted-to-the-new-phase", is(d.getLoad(n),0.+t)&is(d.getLoad(p),whole)&is(d.getLoad(q),other)); }
CONTRACT(unknown_phase) { any_past(); auto n=phase("never seen"); REQUIRES((n!=p)&(n!=q)); ENSURES("no-load", is(d.getLoad(n),0.)); }
CONTRACT(release) { any_past(); d.phase_comm_[p]; d.phase_comm_[q]; d.subphase_comm_[p]; d.subphase_comm_[q]; d.phase_timings_[p]; d.subphase_timings_[p]; auto now=phase("now"); auto back=vtc::any<unsigned>("look back"); d.releaseLBDataFromUnneededPhases(now,back); bool gp=(now>=back)&(now-back==p), gq=(now>=back)&(now-back==q); ENSURES("only-the-phase-no-longer-needed", d.phase_timings_.count(p)==(std::size_t)!gp && d.phase_timings_.count(q)==(std::size_t)!gq); ENSURES("communication-too", d.phase_comm_.count(p)==(std::size_t)!gp && d.phase_comm_.count(q)==(std::size_t)!gq); ENSURES("subphases-too", d.subphase_timings_.count(p)==(std::size_t)!gp && d.subphase_timings_.count(q)==(std::size_t)!gq && d.subphase_comm_.count(p)==(std::size_t)!gp && d.subphase_comm_.count(q)==(std::size_t)!gq); ENSURES("counts", d.getLoadPhaseCount()==2u-gp-gq && d.getCommPhaseCount()==2u-gp-gq && d.getSubphaseLoadPhaseCount()==2u-gp-gq && d.getSubphaseCommPhaseCount()==2u-gp-gq); if (!gq) ENSURES("what-stays-is-unchanged", is(d.getLoad(q),other)); }
