// Load models: what a load balancer is told about an object's load is what the model documents.
// @source vt/vrt/collection/balance/model/composed_model.cc vt/vrt/collection/balance/model/raw_data.cc vt/vrt/collection/balance/model/naive_persistence.cc vt/vrt/collection/balance/model/select_subphases.cc vt/vrt/collection/balance/model/multiple_phases.cc vt/vrt/collection/balance/model/persistence_median_last_n.cc vt/vrt/collection/balance/model/norm.cc vt/vrt/collection/balance/model/comm_overhead.cc vt/vrt/collection/balance/model/weighted_messages.cc vt/vrt/collection/balance/model/weighted_communication_volume.cc vt/vrt/collection/balance/model/linear_model.cc vt/vrt/collection/balance/model/proposed_reassignment.cc vt/vrt/collection/balance/model/per_collection.cc vt/vrt/collection/balance/lb_common.cc vt/context/context.cc vt/elm/elm_id.cc vt/elm/elm_id_bits.cc
// @symsource @vtc/abs/std/string_inst.cc
// @opt stl_model=True
// @copt median fporder=True
// @copt norm_max fporder=True
// @bounded selected_subphases at most four subphases selected
// @bounded several_phases at most four phases combined
// @bounded median at most four past phases, no two loads equal
// @bounded norm_max at most three subphases
// @bounded linear at most three past phases
// @bounded overhead one recorded communication in the phase
// @bounded messages one recorded communication in the phase, two pairs of weights
// @bounded raw at most two objects with three subphases
// @bounded reassignment at most three objects here and four arriving
// @bounded load_of_an_object at most three subphases
// @bounded load_of_a_node at most three objects
#include "vtc.h"
#include "vtc_ctx.h"
#include "vt/vrt/collection/balance/model/composed_model.h"
#include "vt/vrt/collection/balance/model/raw_data.h"
#include "vt/vrt/collection/balance/model/naive_persistence.h"
#include "vt/vrt/collection/balance/model/select_subphases.h"
#include "vt/vrt/collection/balance/model/multiple_phases.h"
#include "vt/vrt/collection/balance/model/persistence_median_last_n.h"
#include "vt/vrt/collection/balance/model/norm.h"
#include "vt/vrt/collection/balance/model/comm_overhead.h"
#include "vt/vrt/collection/balance/model/weighted_messages.h"
#include "vt/vrt/collection/balance/model/weighted_communication_volume.h"
#include "vt/vrt/collection/balance/model/linear_model.h"
#include "vt/vrt/collection/balance/model/proposed_reassignment.h"
#include "vt/vrt/collection/balance/model/per_collection.h"
#include "vt/vrt/collection/balance/node_lb_data.h"
#include "vt/utils/stats/linear_regression.h"
#include <algorithm>
using namespace vt; using namespace vt::vrt::collection::balance; using Id=ElementIDStruct; static constexpr unsigned WHOLE=PhaseOffset::WHOLE_PHASE;
namespace vtc_env { alignas(64) inline unsigned char nlb[sizeof(NodeLBData)]; }
namespace vt { NodeLBData* theNodeLBData() { return reinterpret_cast<NodeLBData*>(vtc_env::nlb); } }
static VirtualProxyType belongs[2]; static Id obj[2];
VirtualProxyType NodeLBData::getCollectionProxyForElement(Id i) const { return i==obj[0]?belongs[0]:belongs[1]; }
static double amount(const char* n) { if (vtc_symbolic()) return vtc::any<double>(n); return (double)vtc::any_in<int>(n,0,1000); }
static bool is(double a, double b) { uint64_t x, y; __builtin_memcpy(&x,&a,8); __builtin_memcpy(&y,&b,8); return x==y; }
static bool near(double a, double b) { return vtc_symbolic()?is(a,b):(a-b<1e-6)&(b-a<1e-6); }
// any model below: answers anything, the same to the same question, and remembers what it was asked
struct Any : LoadModel { struct Q { int kind; uint64_t o; int p; unsigned s; double v; }; mutable Q q[40]; mutable int n=0; int subs=2, objs=3, calls=0; unsigned done=4; bool raw=true, user=true; void const* set[3]={}; PhaseType last=77;
  double ask(int k, Id o, PhaseOffset w) const { for (int i=0;i<n;i++) if ((q[i].kind==k)&&(q[i].o==o.id)&&(q[i].p==w.phases)&&(q[i].s==w.subphase)) return q[i].v; q[n]=Q{k,o.id,w.phases,w.subphase,amount("answer")}; return q[n++].v; }
  double known(int k, Id o, int p, unsigned s) const { for (int i=0;i<n;i++) if ((q[i].kind==k)&&(q[i].o==o.id)&&(q[i].p==p)&&(q[i].s==s)) return q[i].v; ENSURES("asked-below", false); return 0; }
  void setLoads(std::unordered_map<PhaseType,LoadMapType> const* a, std::unordered_map<PhaseType,CommMapType> const* b, std::unordered_map<PhaseType,DataMapType> const* c) override { set[0]=a; set[1]=b; set[2]=c; calls++; }
  void updateLoads(PhaseType l) override { last=l; calls++; }
  LoadType getModeledLoad(Id o, PhaseOffset w) const override { return ask(0,o,w); } LoadType getRawLoad(Id o, PhaseOffset w) const override { return ask(1,o,w); } LoadType getModeledComm(Id o, PhaseOffset w) const override { return ask(2,o,w); }
  ElmUserDataType getUserData(Id o, PhaseOffset w) const override { ask(3,o,w); ElmUserDataType d; d["k"]=7; return d; } bool hasRawLoad() const override { return raw; } bool hasUserData() const override { return user; } CommMapType getComm(PhaseOffset w) const override { ask(4,obj[0],w); CommMapType c; c[elm::CommKey(elm::CommKey::SendRecvTag{},obj[0],obj[1],false)]=elm::CommVolume{1.,5}; return c; }
  unsigned getNumPastPhasesNeeded(unsigned l) const override { return l+past; } unsigned past=0; ObjectIterator begin() const override { return {nullptr}; } int getNumObjects() const override { return objs; } unsigned getNumCompletedPhases() const override { return done; } int getNumSubphases() const override { return subs; } };
static std::shared_ptr<Any> base; static Any* b;
static Id any_id(const char* n) { return Id{vtc::any<uint64_t>(n),vtc::any<NodeType>(n)}; }
static void start() { vtc_make_context(3,8); obj[0]=any_id("object"); obj[1]=any_id("another object"); REQUIRES(obj[0].id!=obj[1].id); base=std::make_shared<Any>(); b=base.get(); b->done=vtc::any_in<unsigned>("phases done",1,1u<<20); }
static PhaseOffset when() { int p=vtc::any_in<int>("phases from now",-1000,1000); return PhaseOffset{p,vtc::choose(2)?WHOLE:vtc::any_in<unsigned>("subphase",0,1000)}; }
// everything a composed model does not change is passed through
template <typename M> void passes(M& m, bool load, bool raw, bool comm, bool past) { auto w=when(); int was=b->calls; std::unordered_map<PhaseType,LoadMapType> a; std::unordered_map<PhaseType,CommMapType> c; std::unordered_map<PhaseType,DataMapType> u; m.setLoads(&a,&c,&u); auto l=vtc::any<PhaseType>("last phase"); m.updateLoads(l); ENSURES("told-below", (b->set[0]==&a)&(b->set[1]==&c)&(b->set[2]==&u)&(b->last==l)); ENSURES("asked-once", b->calls==was+2);
  if (load) { double v=m.getModeledLoad(obj[0],w); ENSURES("load-from-below", is(v,b->known(0,obj[0],w.phases,w.subphase))); } if (raw) { double v=m.getRawLoad(obj[0],w); ENSURES("raw-load-from-below", is(v,b->known(1,obj[0],w.phases,w.subphase))); } if (comm) { double v=m.getModeledComm(obj[0],w); ENSURES("comm-from-below", is(v,b->known(2,obj[0],w.phases,w.subphase))); }
  b->raw=vtc::choose(2); b->user=vtc::choose(2); ENSURES("abilities-from-below", (m.hasRawLoad()==b->raw)&(m.hasUserData()==b->user)); b->objs=vtc::any_in<int>("objects",0,1000); b->subs=vtc::any_in<int>("subphases",0,1000); ENSURES("counts-from-below", m.getNumCompletedPhases()==b->done); if (past) { auto n=vtc::any<unsigned>("look back"); ENSURES("history-from-below", m.getNumPastPhasesNeeded(n)==n); } }
struct Plain : ComposedModel { using ComposedModel::ComposedModel; };
CONTRACT(composed) { start(); Plain m{base}; passes(m,true,true,true,true); ENSURES("counts-from-below", (m.getNumObjects()==b->objs)&(m.getNumSubphases()==b->subs)); auto w=when(); ENSURES("user-data-from-below", std::get<int>(m.getUserData(obj[0],w).at("k"))==7); b->known(3,obj[0],w.phases,w.subphase); ENSURES("comm-map-from-below", m.getComm(w).size()==1); b->known(4,obj[0],w.phases,w.subphase); ENSURES("objects-from-below", !m.begin().isValid()); }
CONTRACT(persistence) { start(); NaivePersistence m{base}; auto w=when(); int p=w.phases>=0?-1:w.phases; double v=m.getModeledLoad(obj[0],w); ENSURES("last-phase-repeats", is(v,b->known(0,obj[0],p,w.subphase))); double r=m.getRawLoad(obj[0],w); ENSURES("last-phase-repeats", is(r,b->known(1,obj[0],p,w.subphase))); m.getUserData(obj[0],w); b->known(3,obj[0],p,w.subphase); ENSURES("only-that-was-asked", b->n==3); auto n=vtc::any<unsigned>("look back"); ENSURES("one-phase-is-enough", m.getNumPastPhasesNeeded(n)==(n<1?1:n)); passes(m,false,false,true,false); }
CONTRACT(selected_subphases) { start(); int k=vtc::choose(5); std::vector<unsigned> sel; for (int j=0;j<k;j++) sel.push_back(vtc::any_in<unsigned>("selected",0,1000)); SelectSubphases m{base,sel}; int p=vtc::any<int>("phases from now"); double v=m.getModeledLoad(obj[0],PhaseOffset{p,WHOLE}); double sum=0.; for (int j=0;j<k;j++) sum+=b->known(0,obj[0],p,sel[j]); ENSURES("sum-of-the-selected", near(v,sum)); ENSURES("as-many-subphases-as-selected", m.getNumSubphases()==k); if (k) { int j=vtc::choose(k); int was=b->n; double s=m.getModeledLoad(obj[0],PhaseOffset{p,(unsigned)j}); ENSURES("numbered-as-selected", is(s,b->known(0,obj[0],p,sel[j])) && b->n==was); } passes(m,false,true,true,true); }
CONTRACT(whole_phase_is_no_subphase) { start(); std::vector<unsigned> sel; sel.push_back(vtc::any_in<unsigned>("selected",0,1000)); sel.push_back(WHOLE); vtc_expect_abort(1); SelectSubphases m{base,sel}; ENSURES("refused", false); }
CONTRACT(several_phases) { start(); int k=1+vtc::choose(4); MultiplePhases m{base,k}; auto w=when(); double v=m.getModeledLoad(obj[0],w); if (w.phases<0) { ENSURES("past-as-it-was", is(v,b->known(0,obj[0],w.phases,w.subphase)) && b->n==1); } else { double sum=0.; for (int j=0;j<k;j++) sum+=b->known(0,obj[0],k*w.phases+j,w.subphase); ENSURES("sum-of-the-block", near(v,sum)); ENSURES("each-phase-once", b->n==k); } passes(m,false,true,true,true); }
CONTRACT(median) { start(); unsigned n=1+vtc::choose(4); PersistenceMedianLastN m{base,n}; b->done=vtc::choose(2)?n+vtc::choose(2):1+vtc::choose(n); unsigned k=n<b->done?n:b->done; unsigned s=vtc::any<unsigned>("subphase"); for (unsigned j=1;j<=k;j++) { double x=b->ask(0,obj[0],PhaseOffset{-(int)j,s}); REQUIRES((x>=-1e300)&(x<=1e300)); for (unsigned i=1;i<j;i++) REQUIRES(x!=b->q[i-1].v); } double v=m.getModeledLoad(obj[0],PhaseOffset{vtc::any_in<int>("phases ahead",0,1000),s}); ENSURES("only-the-last-phases", b->n==(int)k); double t[4]; for (unsigned j=0;j<k;j++) t[j]=b->q[j].v; for (unsigned i=1;i<k;i++) for (unsigned j=i;j>0;j--) if (t[j]<t[j-1]) { double x=t[j]; t[j]=t[j-1]; t[j-1]=x; } double want=k%2?t[k/2]:(t[k/2-1]+t[k/2])/2; ENSURES("median", is(want,v)); }
CONTRACT(median_otherwise) { start(); unsigned n=vtc::any_in<unsigned>("window",1,1000); PersistenceMedianLastN m{base,n}; auto w=when(); REQUIRES(w.phases<0); double v=m.getModeledLoad(obj[0],w); ENSURES("past-as-it-was", is(v,b->known(0,obj[0],w.phases,w.subphase))); auto l=vtc::any<unsigned>("look back"); ENSURES("whole-window-needed", m.getNumPastPhasesNeeded(l)==(l<n?n:l)); passes(m,false,true,true,false); }
CONTRACT(norm_max) { start(); Norm m{base,__builtin_inf()}; b->subs=vtc::choose(4); int p=vtc::any<int>("phases from now"); for (int j=0;j<b->subs;j++) { double x=b->ask(0,obj[0],PhaseOffset{p,(unsigned)j}); REQUIRES((x>=0.)&(x<=1e6)); } double v=m.getModeledLoad(obj[0],PhaseOffset{p,WHOLE}); bool among=b->subs==0 && v==0.; for (int j=0;j<b->subs;j++) { ENSURES("at-least-each", v>=b->q[j].v); among|=v==b->q[j].v; } ENSURES("one-of-them", among); ENSURES("each-once", b->n==b->subs); }
CONTRACT(norm_subphase) { start(); Norm m{base,2.}; auto w=when(); REQUIRES(w.subphase!=WHOLE); double v=m.getModeledLoad(obj[0],w); ENSURES("subphase-as-it-is", is(v,b->known(0,obj[0],w.phases,w.subphase)) && b->n==1); passes(m,false,true,true,true); }
CONTRACT(volume) { start(); double al=amount("alpha"), be=amount("beta"), ga=amount("gamma"); WeightedCommunicationVolume m{base,al,be,ga}; auto w=when(); double v=m.getModeledLoad(obj[0],w), l=b->known(0,obj[0],w.phases,w.subphase), c=b->known(2,obj[0],w.phases,w.subphase); ENSURES("weighted-sum", near(v,al*l+be*c+ga)); passes(m,false,true,true,true); }
CONTRACT(linear) { start(); unsigned n=2+vtc::choose(2); LinearModel m{base,n}; b->done=2+vtc::choose(3); unsigned k=n<b->done?n:b->done; auto l=vtc::any<unsigned>("look back"); ENSURES("whole-window-needed", m.getNumPastPhasesNeeded(l)==(l<n?n:l)); int p=vtc::choose(2); unsigned s=vtc::any<unsigned>("subphase"); double v=m.getModeledLoad(obj[0],PhaseOffset{p,s}); ENSURES("only-the-last-phases", b->n==(int)k); std::vector<double> x, y; for (int j=-(int)k;j<0;j++) { x.push_back(j); y.push_back(b->known(0,obj[0],j,s)); } util::stats::LinearRegression r{x,y}; ENSURES("regression-over-them", is(v,r.predict(p))||(v!=v)); int was=b->n; double o=m.getModeledLoad(obj[0],PhaseOffset{-1,s}); ENSURES("past-as-it-was", is(o,b->known(0,obj[0],-1,s)) && b->n==was); }
// communication turned into load
static elm::CommKey edge(int kind, Id a, Id c, NodeType n, bool bc) { using K=elm::CommKey; switch (kind) { case 0: return K(K::SendRecvTag{},a,c,bc); case 1: return K(K::CollectionToNodeTag{},a,n,bc); case 2: return K(K::NodeToCollectionTag{},n,c,bc); default: return K(K::WriteSharedTag{},n,4); } }
static std::unordered_map<PhaseType,CommMapType>* comms_; static std::unordered_map<PhaseType,LoadMapType>* loads_; static std::unordered_map<PhaseType,DataMapType>* users_;
#define comms (*comms_)
#define loads (*loads_)
#define users (*users_)
static void tables() { comms_=new std::unordered_map<PhaseType,CommMapType>; loads_=new std::unordered_map<PhaseType,LoadMapType>; users_=new std::unordered_map<PhaseType,DataMapType>; }
static elm::CommKey ek; static elm::CommVolume ev; static int gone;
static void one_edge() { tables(); gone=1+vtc::choose(2); Id o=obj[vtc::choose(2)], r=obj[vtc::choose(2)]; o.curr_node=vtc::any<NodeType>("from node"); r.curr_node=vtc::any<NodeType>("to node"); ek=edge(vtc::choose(4),o,r,vtc::any<NodeType>("node"),vtc::choose(2)); ev=elm::CommVolume{amount("bytes"),vtc::any_in<uint64_t>("messages",0,1000)}; comms[(PhaseType)b->done-gone][ek]=ev; comms[(PhaseType)b->done][ek]=elm::CommVolume{1e9,1000}; }
CONTRACT(overhead) { start(); REQUIRES(b->done>=2); double wm=amount("per message"), wb=amount("per byte"); CommOverhead m{base,wm,wb}; one_edge(); m.setLoads(nullptr,&comms,nullptr); ENSURES("told-below", b->set[1]==&comms); bool in=ek.offNode()&(ek.toObj()==obj[0]); double extra=0.; if (in) { extra+=wm*ev.messages; extra+=wb*ev.bytes; } double v=m.getModeledLoad(obj[0],PhaseOffset{-gone,WHOLE}), w=b->known(0,obj[0],-gone,WHOLE); ENSURES("work-plus-what-came-in", near(v,w+extra)); unsigned s=vtc::any_in<unsigned>("subphase",0,1000); double x=m.getModeledLoad(obj[0],PhaseOffset{-gone,s}), y=b->known(0,obj[0],-gone,s); if (!vtc_symbolic()) REQUIRES(w!=0.); ENSURES("shared-in-proportion", near(x,y+extra*(y/w))); }
CONTRACT(messages) { start(); REQUIRES(b->done>=2); bool cheap=vtc::choose(2); double wm=cheap?2.:.25, wb=cheap?.5:4.; WeightedMessages m{base,wm,wb}; one_edge(); ev=elm::CommVolume{amount("bytes"),(uint64_t)vtc::choose(2)*3}; REQUIRES((ev.bytes>=0.)&(ev.bytes<=1e15)); comms[(PhaseType)b->done-gone][ek]=ev; m.setLoads(nullptr,&comms,nullptr); bool sr=(ek.commCategory()==elm::CommCategory::SendRecv)&ek.offNode(); bool in=sr&(ek.toObj()==obj[0]), ou=sr&!in&(ek.fromObj()==obj[0]); double i=0., o=0.; if (in) { i+=wm*ev.messages; i+=wb*ev.bytes; } if (ou) { o+=wm*ev.messages; o+=wb*ev.bytes; } double v=m.getModeledComm(obj[0],PhaseOffset{-gone,WHOLE}), c=b->known(2,obj[0],-gone,WHOLE); ENSURES("larger-direction", near(v,c+std::max(i,o))); passes(m,true,true,false,true); }
// measured data
CONTRACT(raw) { start(); tables(); PhaseType last=vtc::any_in<PhaseType>("last phase",2,1u<<20); double w[2], s[2][3]; int ns[2]; int n=vtc::choose(3); for (int j=0;j<n;j++) { w[j]=amount("load"); ns[j]=vtc::choose(4); LoadSummary x; x.whole_phase_load=w[j]; for (int k=0;k<ns[j];k++) { s[j][k]=amount("part"); x.subphase_loads.push_back(s[j][k]); } loads[last].emplace(obj[j],x); } loads[last]; loads[last-1].emplace(obj[0],LoadSummary{5.,{}}); users[last][obj[0]]["k"]=7; comms[last][elm::CommKey(elm::CommKey::SendRecvTag{},obj[0],obj[1],false)]=elm::CommVolume{1.,5};
  RawData m; m.setLoads(&loads,&comms,&users); m.updateLoads(last); ENSURES("counts", (m.getNumCompletedPhases()==last+1)&(m.getNumObjects()==n)); int most=0; for (int j=0;j<n;j++) if (ns[j]>most) most=ns[j]; ENSURES("most-subphases-of-any", m.getNumSubphases()==most); int seen[2]={0,0}, all=0; for (auto o : m) { all++; for (int j=0;j<2;j++) seen[j]+=o==obj[j]; } ENSURES("each-object-once", (all==n)&(seen[0]==(n>0))&(seen[1]==(n>1)));
  for (int j=0;j<2;j++) { double v=m.getModeledLoad(obj[j],PhaseOffset{-1,WHOLE}), r=m.getRawLoad(obj[j],PhaseOffset{-1,WHOLE}); ENSURES("as-measured", is(v,j<n?w[j]:0.)&is(r,v)); for (int k=0;j<n&&k<ns[j];k++) ENSURES("subphase-as-measured", is(m.getModeledLoad(obj[j],PhaseOffset{-1,(unsigned)k}),s[j][k])); } ENSURES("phase-before-as-measured", m.getModeledLoad(obj[0],PhaseOffset{-2,WHOLE})==5.); ENSURES("user-data-as-given", m.getUserData(obj[0],PhaseOffset{-1,WHOLE}).size()==1 && m.getUserData(obj[1],PhaseOffset{-1,WHOLE}).empty() && m.getUserData(obj[0],PhaseOffset{-2,WHOLE}).empty()); ENSURES("communication-as-measured", m.getComm(PhaseOffset{-1,WHOLE}).size()==1 && m.getComm(PhaseOffset{-2,WHOLE}).empty()); auto l=vtc::any<unsigned>("look back"); ENSURES("what-is-asked-is-needed", m.getNumPastPhasesNeeded(l)==l); ENSURES("abilities", m.hasRawLoad()&m.hasUserData()); RawData e; e.setLoads(&loads,&comms,nullptr); e.updateLoads(last+5); ENSURES("nothing-measured-nothing-there", (e.getNumObjects()==0)&!e.hasUserData()&!(e.begin()!=e.end())); }
CONTRACT(raw_predicts_nothing) { start(); tables(); loads[3].emplace(obj[0],LoadSummary{1.,{}}); RawData m; m.setLoads(&loads,nullptr,nullptr); m.updateLoads(3); vtc_expect_abort(1); auto w=vtc::any_in<int>("phases from now",0,1000); m.getModeledLoad(obj[0],PhaseOffset{w,WHOLE}); ENSURES("refused", false); }
// a proposed assignment of objects
struct Here : Any { std::vector<Id> ids; mutable LoadMapType m; ObjectIterator begin() const override { for (auto i : ids) m[i]; return {std::make_unique<LoadMapObjectIterator>(m.cbegin(),m.cend())}; } int getNumObjects() const override { return ids.size(); } };
CONTRACT(reassignment) { start(); Id o[4]; for (int j=0;j<4;j++) { o[j]=any_id("id"); for (int i=0;i<j;i++) REQUIRES(o[j].id!=o[i].id); } auto h=std::make_shared<Here>(); int here_=vtc::choose(4); for (int j=0;j<here_;j++) h->ids.push_back(o[j]); auto r=std::make_shared<Reassignment>(); r->node_=3; bool dep[4]={}, arr[4]={}; double aw[4]; for (int j=0;j<here_;j++) { dep[j]=vtc::choose(2); if (dep[j]) r->depart_[o[j]]=vtc::any<NodeType>("to"); } for (int j=0;j<4;j++) { if (j<here_&&!dep[j]) continue; if (j<here_ || vtc::choose(2)) { if (j<here_ && !vtc::choose(2)) continue; arr[j]=true; aw[j]=amount("arriving load"); ElmUserDataType u; u["k"]=9; r->arrive_[o[j]]=std::make_tuple(LoadSummary{aw[j],{}},LoadSummary{aw[j]+1,{}},u); } }
  ProposedReassignment m{h,r}; int want=0, all=0; int seen[4]={}; for (auto i : m) { all++; for (int j=0;j<4;j++) seen[j]+=i==o[j]; } for (int j=0;j<4;j++) { bool in=arr[j]||(j<here_&&!dep[j]); want+=in; ENSURES("each-object-that-will-be-here-once", seen[j]==(int)in); } ENSURES("no-other", all==want); ENSURES("counted", m.getNumObjects()==want);
  PhaseOffset w{-1,WHOLE}; for (int j=0;j<4;j++) { if (arr[j]) { ENSURES("load-comes-along", is(m.getModeledLoad(o[j],w),aw[j]) && is(m.getRawLoad(o[j],w),aw[j]+1) && std::get<int>(m.getUserData(o[j],w).at("k"))==9); } else if (j<here_&&!dep[j]) { double v=m.getModeledLoad(o[j],w), x=m.getRawLoad(o[j],w); ENSURES("stays-as-it-was", is(v,h->known(0,o[j],-1,WHOLE)) && is(x,h->known(1,o[j],-1,WHOLE)) && std::get<int>(m.getUserData(o[j],w).at("k"))==7); } } }
CONTRACT(departing_has_no_load_here) { start(); auto h=std::make_shared<Here>(); h->ids.push_back(obj[0]); auto r=std::make_shared<Reassignment>(); r->node_=3; r->depart_[obj[0]]=vtc::any<NodeType>("to"); ProposedReassignment m{h,r}; PhaseOffset w{-1,WHOLE}; int k=vtc::choose(3); vtc_expect_abort(1); if (k==0) m.getModeledLoad(obj[0],w); else if (k==1) m.getRawLoad(obj[0],w); else m.getUserData(obj[0],w); ENSURES("refused", false); }
CONTRACT(of_another_node_refused) { start(); auto r=std::make_shared<Reassignment>(); r->node_=vtc::any<NodeType>("node"); REQUIRES(r->node_!=3); vtc_expect_abort(1); ProposedReassignment m{base,r}; ENSURES("refused", false); }
// a model for each collection
CONTRACT(per_collection) { start(); tables(); auto one=std::make_shared<Any>(), two=std::make_shared<Any>(); VirtualProxyType c1=vtc::any<VirtualProxyType>("collection"), c2=vtc::any<VirtualProxyType>("another"); REQUIRES(c1!=c2); belongs[0]=vtc::any<VirtualProxyType>("belongs to"); belongs[1]=c2; PerCollection m{base}; m.addModel(c1,one); m.addModel(c2,two); Any* w=belongs[0]==c1?one.get():belongs[0]==c2?two.get():b; PhaseOffset t=when(); double v=m.getModeledLoad(obj[0],t); ENSURES("asks-the-model-of-its-collection", is(v,w->known(0,obj[0],t.phases,t.subphase))); double r=m.getRawLoad(obj[0],t); ENSURES("asks-the-model-of-its-collection", is(r,w->known(1,obj[0],t.phases,t.subphase))); m.getUserData(obj[0],t); w->known(3,obj[0],t.phases,t.subphase); ENSURES("only-that", one->n+two->n+b->n==3); }
CONTRACT(per_collection_abilities) { start(); tables(); auto one=std::make_shared<Any>(), two=std::make_shared<Any>(); VirtualProxyType c1=vtc::any<VirtualProxyType>("collection"), c2=vtc::any<VirtualProxyType>("another"); REQUIRES(c1!=c2); belongs[0]=vtc::any<VirtualProxyType>("belongs to"); belongs[1]=c2; PerCollection m{base}; m.addModel(c1,one); m.addModel(c2,two); Any* w=belongs[0]==c1?one.get():belongs[0]==c2?two.get():b; one->raw=vtc::choose(2); two->raw=vtc::choose(2); b->raw=vtc::choose(2); ENSURES("raw-load-iff-all-have-it", m.hasRawLoad()==(one->raw&two->raw&b->raw)); one->user=vtc::choose(2); two->user=vtc::choose(2); b->user=vtc::choose(2); ENSURES("user-data-iff-all-have-it", m.hasUserData()==(one->user&two->user&b->user)); one->past=vtc::any_in<unsigned>("needs",0,1000); two->past=vtc::any_in<unsigned>("needs",0,1000); auto l=vtc::any_in<unsigned>("look back",0,1000); unsigned most=one->past>two->past?one->past:two->past; ENSURES("history-for-the-most-demanding", m.getNumPastPhasesNeeded(l)==l+most); m.setLoads(&loads,&comms,&users); m.updateLoads(6); ENSURES("all-are-told", (one->set[0]==&loads)&(two->set[1]==&comms)&(b->set[2]==&users)&(one->last==6)&(two->last==6)&(b->last==6)); ENSURES("once", (one->calls==2)&(two->calls==2)&(b->calls==2)); }
// sums over a model
CONTRACT(load_of_an_object) { start(); b->subs=vtc::choose(4); int p=vtc::any<int>("phases from now"); auto s=getObjectLoads(base,obj[0],PhaseOffset{p,WHOLE}); ENSURES("whole", is(s.whole_phase_load,b->known(0,obj[0],p,WHOLE)) && is(s.get(PhaseOffset{p,WHOLE}),s.whole_phase_load)); ENSURES("every-subphase", (int)s.subphase_loads.size()==b->subs); for (int k=0;k<b->subs;k++) ENSURES("subphase", is(s.get(PhaseOffset{p,(unsigned)k}),b->known(0,obj[0],p,k))); b->raw=vtc::choose(2); auto r=getObjectRawLoads(base,obj[0],PhaseOffset{p,WHOLE}); if (b->raw) { ENSURES("raw-whole", is(r.whole_phase_load,b->known(1,obj[0],p,WHOLE)) && (int)r.subphase_loads.size()==b->subs); } else ENSURES("no-raw-load", (r.whole_phase_load==0.) && r.subphase_loads.empty()); b->user=vtc::choose(2); ENSURES("user-data-if-any", getObjectUserData(base,obj[0],PhaseOffset{p,WHOLE}).size()==(std::size_t)b->user); }
CONTRACT(load_of_a_node) { start(); auto h=std::make_shared<Here>(); h->subs=vtc::choose(3); int n=vtc::choose(3); for (int j=0;j<n;j++) h->ids.push_back(obj[j]); auto s=getNodeLoads(h,PhaseOffset{-1,WHOLE}); double w=0., x=0.; for (auto i : *h) w+=h->known(0,i,-1,WHOLE); ENSURES("sum-of-its-objects", near(s.whole_phase_load,w)); ENSURES("every-subphase", (int)s.subphase_loads.size()==h->subs); for (int k=0;k<h->subs;k++) { x=0.; for (auto i : *h) x+=h->known(0,i,-1,k); ENSURES("sum-of-its-objects", near(s.subphase_loads[k],x)); } ENSURES("each-asked-once", h->n==n*(1+h->subs)); }
