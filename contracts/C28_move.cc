// Reassignment: every transfer a balancer asks for becomes one departure and one arrival, and nothing else moves.
// @pre lb/pre.h
// @source vt/vrt/collection/balance/baselb/baselb.cc vt/vrt/collection/balance/lb_common.cc vt/context/context.cc vt/elm/elm_id.cc vt/elm/elm_id_bits.cc
// @symsource @vtc/abs/std/string_inst.cc
// @opt stl_model=True
// @bounded normalized at most two transfers asked for here and one elsewhere, one arrival, one subphase
// @bounded applied at most three departing objects
// @bounded unmovable at most two transfers
#include "vtc.h"
#include "vtc_ctx.h"
using namespace vt; using namespace vt::vrt::collection; using namespace vt::vrt::collection::balance; using namespace vtc_env; using Id=ElementIDStruct;
namespace vtc_env { alignas(64) inline unsigned char cfg_mem[sizeof(arguments::AppConfig)], nlb_mem[sizeof(NodeLBData)]; }
namespace vt { arguments::AppConfig* theConfig() { return reinterpret_cast<arguments::AppConfig*>(vtc_env::cfg_mem); } NodeLBData* theNodeLBData() { return reinterpret_cast<NodeLBData*>(vtc_env::nlb_mem); }
 vrt::collection::balance::LBManager* theLBManager() { return nullptr; } phase::PhaseManager* thePhase() { return nullptr; } namespace timing { TimeType getCurrentTime() { return TimeType{0.}; } } }
bool ReadLBConfig::openConfig(std::string const&) { return false; } ConfigEntry* ReadLBConfig::entry(ConfigIndex const&) { return nullptr; } ConfigEntry ReadLBConfig::makeConfigFromParams(std::string) { return ConfigEntry(0,std::string(),{}); } // see C18
bool NodeLBData::migrateObjTo(Id id, NodeType to) { moved[nmoved++]=Moved{id.id,to}; return true; }
CommMapType* NodeLBData::getNodeComm(PhaseType) { return nullptr; }

static double amount(const char* n) { if (vtc_symbolic()) return vtc::any<double>(n); return (double)vtc::any_in<int>(n,0,1000); }
static bool is(double a, double b) { uint64_t x, y; __builtin_memcpy(&x,&a,8); __builtin_memcpy(&y,&b,8); return x==y; }
// any model below: answers anything, the same to the same question
struct Model : LoadModel { struct Q { int kind; uint64_t o; int p; unsigned s; double v; }; mutable Q q[24]; mutable int n=0; int subs=1; bool raw=true, user=true; std::vector<Id> objs;
  double ask(int k, Id o, PhaseOffset w) const { for (int i=0;i<n;i++) if ((q[i].kind==k)&&(q[i].o==o.id)&&(q[i].p==w.phases)&&(q[i].s==w.subphase)) return q[i].v; q[n]=Q{k,o.id,w.phases,w.subphase,amount("load")}; return q[n++].v; }
  void setLoads(std::unordered_map<PhaseType,LoadMapType> const*, std::unordered_map<PhaseType,CommMapType> const*, std::unordered_map<PhaseType,DataMapType> const*) override {} void updateLoads(PhaseType) override {}
  LoadType getModeledLoad(Id o, PhaseOffset w) const override { return ask(0,o,w); } LoadType getRawLoad(Id o, PhaseOffset w) const override { return ask(1,o,w); } LoadType getModeledComm(Id, PhaseOffset) const override { return 0; }
  ElmUserDataType getUserData(Id, PhaseOffset) const override { ElmUserDataType d; d["k"]=7; return d; } bool hasRawLoad() const override { return raw; } bool hasUserData() const override { return user; } CommMapType getComm(PhaseOffset) const override { return {}; }
  unsigned getNumPastPhasesNeeded(unsigned l) const override { return l; } ObjectIterator begin() const override { return {nullptr}; } int getNumObjects() const override { return 0; } unsigned getNumCompletedPhases() const override { return 0; } int getNumSubphases() const override { return subs; } };
static Model* model; static NodeType me;
static Id obj(const char* n, bool movable=true) { Id i{vtc::any<uint64_t>(n),vtc::any_in<NodeType>("node of the object",0,32766)}; REQUIRES(i.isMigratable()==movable); return i; }
static NodeType node(const char* n) { return vtc_symbolic()?vtc::any_in<NodeType>(n,0,32766):vtc::any_in<NodeType>(n,0,2); }
// a strategy that asks for some transfers
struct Strat : lb::BaseLB { int n=0, ran=0, params=0; Id o[2]; NodeType to[2]; double load=0; void inputParams(ConfigEntry* c) override { params++; ENSURES("parameters-before-the-balancer", (c!=nullptr)&(ran==0)); } void runLB(LoadType l) override { ran++; load=l; ENSURES("parameters-first", params==1); for (int k=0;k<n;k++) migrateObjectTo(o[k],to[k]); } };
static Strat* st; using TransferMsgD=lb::TransferMsg<lb::BaseLB::ObjDestinationListType>; using TransferMsgL=lb::TransferMsg<lb::BaseLB::ObjLoadListType>;
static void start() { nsent=nreduced=nmoved=stage=0; arrive=nullptr; open_=nested=false; me=node("this node"); vtc_make_context(0,1); vtc_ctx->thisNode_=me; vtc_ctx->numNodes_=32767; auto* c=theConfig(); new (&c->vt_lb_file_name) std::string(); new (&c->vt_lb_args) std::string(); c->vt_lb_self_migration=vtc::choose(2); st=new Strat(); model=new Model(); }
CONTRACT(asked_for) { start(); Id a=obj("object"), b=obj("another object"); NodeType t=node("to"), u=node("to"); bool self=theConfig()->vt_lb_self_migration; auto& v=st->getTransfers(); st->migrateObjectTo(a,t); bool ta=(a.curr_node!=t)|self; ENSURES("moves-unless-already-there", v.size()==(std::size_t)ta); if (ta) ENSURES("that-object-to-that-node", (std::get<0>(v[0]).id==a.id)&(std::get<0>(v[0]).curr_node==a.curr_node)&(std::get<1>(v[0])==t)); st->migrateObjectTo(b,u); bool tb=(b.curr_node!=u)|self; ENSURES("moves-unless-already-there", v.size()==(std::size_t)(ta+tb)); if (tb) ENSURES("that-object-to-that-node", (std::get<0>(v.back()).id==b.id)&(std::get<1>(v.back())==u)); if (ta) ENSURES("first-untouched", (std::get<0>(v[0]).id==a.id)&(std::get<1>(v[0])==t)); ENSURES("nothing-sent-yet", nsent==0); }
// what the other nodes send: one object that is here and shall leave, one that arrives
static NodeType goes_to; static Id leaves, comes; static NodeType goes; static bool has_leave, has_come; static int32_t total; static LoadSummary come_load, come_raw;
static void others(int s) {
  if (s==1) { ENSURES("count-asked-for-once", (nreduced==1)&&(reduced[0].root==-1)&&(reduced[0].op==0)&&(reduced[0].fn==tag<&lb::BaseLB::finalize>())); st->finalize(total); }
  if (s==2 && has_leave) { lb::BaseLB::ObjDestinationListType l; l.push_back(std::make_tuple(leaves,goes)); TransferMsgD m(l); st->notifyCurrentHostNodeOfObjectsDeparting(&m); }
  if (s==3 && has_come) { lb::BaseLB::ObjLoadListType l; ElmUserDataType d; d["n"]=3; l.push_back(std::make_tuple(comes,come_load,come_raw,d)); TransferMsgL m(l); st->notifyNewHostNodeOfObjectsArriving(&m); } }
static int announced(bool arriving, Id i, NodeType* where, LoadSummary* load=nullptr, LoadSummary* raw=nullptr, bool* user=nullptr) { int c=0; for (int k=0;k<nsent;k++) { if (arriving && sent[k].fn==tag<&lb::BaseLB::notifyNewHostNodeOfObjectsArriving>()) { for (auto&& e : static_cast<TransferMsgL*>(sent[k].msg)->getTransfer()) if (std::get<0>(e)==i) { c++; *where=sent[k].node; *load=std::get<1>(e); *raw=std::get<2>(e); *user=std::get<3>(e).size()==1; } } if (!arriving && sent[k].fn==tag<&lb::BaseLB::notifyCurrentHostNodeOfObjectsDeparting>()) { for (auto&& e : static_cast<TransferMsgD*>(sent[k].msg)->getTransfer()) if (std::get<0>(e)==i) { c++; *where=sent[k].node; goes_to=std::get<1>(e); } } } return c; }
static int listed() { int c=0; for (int k=0;k<nsent;k++) c+=sent[k].fn==tag<&lb::BaseLB::notifyNewHostNodeOfObjectsArriving>()?(int)static_cast<TransferMsgL*>(sent[k].msg)->getTransfer().size():(int)static_cast<TransferMsgD*>(sent[k].msg)->getTransfer().size(); return c; }
static void check_leaving(Reassignment const& r, Id i, NodeType to) { auto it=r.depart_.find(i); ENSURES("leaves-to-its-destination", it!=r.depart_.end() && it->second==to); NodeType w=-1; LoadSummary l, q; bool u=false; int c=announced(true,i,&w,&l,&q,&u); ENSURES("announced-once-where-it-goes", (c==1)&(w==to)); ENSURES("with-its-modelled-load", is(l.whole_phase_load,model->ask(0,i,{0,PhaseOffset::WHOLE_PHASE})) && (int)l.subphase_loads.size()==model->subs && (model->subs==0 || is(l.subphase_loads[0],model->ask(0,i,{0,0})))); if (model->raw) ENSURES("with-its-raw-load", is(q.whole_phase_load,model->ask(1,i,{0,PhaseOffset::WHOLE_PHASE})) && (int)q.subphase_loads.size()==model->subs && (model->subs==0 || is(q.subphase_loads[0],model->ask(1,i,{0,0})))); ENSURES("with-its-user-data", u==model->user); }
CONTRACT(normalized) { start(); st->n=vtc::choose(3); for (int k=0;k<st->n;k++) { st->o[k]=obj("object"); st->to[k]=node("to"); } if (st->n==2) REQUIRES(st->o[0].id!=st->o[1].id); leaves=obj("object others move"); goes=node("where others move it"); comes=obj("arriving object"); leaves.curr_node=me; REQUIRES(leaves.id!=comes.id); for (int k=0;k<st->n;k++) REQUIRES((st->o[k].id!=leaves.id)&(st->o[k].id!=comes.id)); has_leave=vtc::choose(2); has_come=st->n<2 && vtc::choose(2); if (st->n==2) { REQUIRES(!theConfig()->vt_lb_self_migration); } come_load=LoadSummary(); come_raw=LoadSummary(); total=vtc::any<int32_t>("total"); come_load.whole_phase_load=amount("load"); come_raw.whole_phase_load=amount("raw load"); come_load.subphase_loads.push_back(amount("load")); model->subs=st->n==1?vtc::choose(2):1; model->raw=model->user=st->n==0 || vtc::choose(2); arrive=others;
  lb::BaseLB::StatisticMapType stats; lb::BaseLB::ElementCommType comm; DataMapType data; double load=amount("total load"); auto ph=vtc::any<PhaseType>("phase"); bool self=theConfig()->vt_lb_self_migration;
  auto r=st->startLB(ph,{},model,stats,comm,load,data);
  ENSURES("balancer-ran-once-with-the-load", (st->ran==1) && is(st->load,load)); ENSURES("this-node", r->node_==me); ENSURES("total-count", r->global_migration_count==total); int mine=0, away=0, asked=0; 
  for (int k=0;k<st->n;k++) { Id o=st->o[k]; if ((o.curr_node==st->to[k])&!self) { ENSURES("stays", r->depart_.count(o)==0); continue; } asked++; if (o.curr_node==me) { mine++; check_leaving(*r,o,st->to[k]); } else { away++; ENSURES("not-departing-from-here", r->depart_.count(o)==0); NodeType w=-1; int c=announced(false,o,&w); ENSURES("its-node-told-once", (c==1)&(w==o.curr_node)&(goes_to==st->to[k])); } }
  ENSURES("counts-what-was-asked-for", *static_cast<int32_t*>(reduced[0].val)==asked); if (has_leave) { mine++; check_leaving(*r,leaves,goes); } ENSURES("nothing-else-departs", (int)r->depart_.size()==mine); ENSURES("nothing-else-announced", listed()==mine+away);
  ENSURES("arrives", r->arrive_.size()==(std::size_t)has_come); if (has_come) { auto it=r->arrive_.find(comes); ENSURES("arrives-with-its-loads", it!=r->arrive_.end() && is(std::get<0>(it->second).whole_phase_load,come_load.whole_phase_load) && is(std::get<1>(it->second).whole_phase_load,come_raw.whole_phase_load) && std::get<0>(it->second).subphase_loads.size()==1 && std::get<1>(it->second).subphase_loads.size()==0 && std::get<2>(it->second).size()==1); }
  for (int k=0;k<nsent;k++) ENSURES("departures-settled-before-arrivals", sent[k].stage==(sent[k].fn==tag<&lb::BaseLB::notifyCurrentHostNodeOfObjectsDeparting>()?2:3)); ENSURES("one-epoch-after-the-other", (stage==4)&!nested); }
CONTRACT(unmovable) { start(); st->n=1+vtc::choose(2); int bad=st->n-1; for (int k=0;k<st->n;k++) { st->o[k]=obj("object",k!=bad); st->to[k]=node("to"); } REQUIRES((st->o[bad].curr_node!=st->to[bad])|theConfig()->vt_lb_self_migration); lb::BaseLB::StatisticMapType stats; lb::BaseLB::ElementCommType comm; DataMapType data; vtc_expect_abort(1); st->startLB(1,{},model,stats,comm,0,data); ENSURES("refused", false); }
CONTRACT(applied) { start(); auto r=std::make_shared<Reassignment>(); int n=vtc::choose(4); Id o[3]; NodeType to[3]; for (int k=0;k<n;k++) { o[k]=obj("object"); to[k]=node("to"); for (int j=0;j<k;j++) REQUIRES(o[j].id!=o[k].id); r->depart_[o[k]]=to[k]; } r->arrive_[obj("arriving")]; applyReassignment(r); ENSURES("every-departing-object-moves-once", nmoved==n); for (int k=0;k<n;k++) { int c=0; for (int j=0;j<nmoved;j++) if (moved[j].id==o[k].id) { c++; ENSURES("to-its-destination", moved[j].to==to[k]); } ENSURES("every-departing-object-moves-once", c==1); } ENSURES("in-one-epoch", (stage==1)&!nested); }
