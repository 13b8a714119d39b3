// Balancers: every object offered ends on exactly one node, nothing that cannot move is moved.
// @pre lb/pre.h
// @source vt/vrt/collection/balance/greedylb/greedylb.cc vt/vrt/collection/balance/baselb/load_sampler.cc vt/vrt/collection/balance/rotatelb/rotatelb.cc vt/vrt/collection/balance/randomlb/randomlb.cc vt/vrt/collection/balance/testserializationlb/testserializationlb.cc vt/vrt/collection/balance/baselb/baselb.cc vt/context/context.cc vt/elm/elm_id.cc vt/elm/elm_id_bits.cc
// @symsource @vtc/abs/std/string_inst.cc
// @opt stl_model=True
// @bounded placed at most three nodes and three objects in two load classes
// @bounded offered at most three objects with one of three loads
// @bounded combined at most two objects on either side
// @bounded rotated at most three objects
// @bounded in_place at most three objects
// @bounded random at most three objects, three nodes, three seeds
#include "vtc.h"
#include "vtc_ctx.h"
#include "vt/vrt/collection/balance/greedylb/greedylb.h"
#include "vt/vrt/collection/balance/rotatelb/rotatelb.h"
#include "vt/vrt/collection/balance/randomlb/randomlb.h"
#include "vt/vrt/collection/balance/testserializationlb/testserializationlb.h"
using namespace vt; using namespace vt::vrt::collection; using namespace vt::vrt::collection::balance; using namespace vtc_env; using Id=ElementIDStruct; using G=lb::GreedyLB;
namespace vtc_env { alignas(64) inline unsigned char cfg_mem[sizeof(arguments::AppConfig)]; }
namespace vt { arguments::AppConfig* theConfig() { return reinterpret_cast<arguments::AppConfig*>(vtc_env::cfg_mem); } NodeLBData* theNodeLBData() { return nullptr; } LBManager* theLBManager() { return nullptr; } phase::PhaseManager* thePhase() { return nullptr; } namespace timing { TimeType getCurrentTime() { return TimeType{0.}; } } }
bool ReadLBConfig::openConfig(std::string const&) { return false; } ConfigEntry* ReadLBConfig::entry(ConfigIndex const&) { return nullptr; } ConfigEntry ReadLBConfig::makeConfigFromParams(std::string) { return ConfigEntry(0,std::string(),{}); } CommMapType* NodeLBData::getNodeComm(PhaseType) { return nullptr; }
static Id o[3]; static double load[3]; static bool movable[3]; static int n; static NodeType me;
struct It : ObjectIteratorImpl { int i=0; void operator++() override { i++; } Id operator*() const override { return o[i]; } bool isValid() const override { return i<n; } };
struct Model : LoadModel { void setLoads(std::unordered_map<PhaseType,LoadMapType> const*, std::unordered_map<PhaseType,CommMapType> const*, std::unordered_map<PhaseType,DataMapType> const*) override {} void updateLoads(PhaseType) override {}
  LoadType getModeledLoad(Id x, PhaseOffset w) const override { ENSURES("next-phase-asked-for", (w.phases==0)&(w.subphase==PhaseOffset::WHOLE_PHASE)); for (int k=0;k<n;k++) if (o[k].id==x.id) return load[k]; ENSURES("known-object", false); return 0; } LoadType getModeledComm(Id, PhaseOffset) const override { return 0; } LoadType getRawLoad(Id, PhaseOffset) const override { return 0; } ElmUserDataType getUserData(Id, PhaseOffset) const override { return {}; } bool hasRawLoad() const override { return false; } bool hasUserData() const override { return false; } CommMapType getComm(PhaseOffset) const override { return {}; }
  unsigned getNumPastPhasesNeeded(unsigned l) const override { return l; } ObjectIterator begin() const override { return {std::make_unique<It>()}; } int getNumObjects() const override { return n; } unsigned getNumCompletedPhases() const override { return 0; } int getNumSubphases() const override { return 1; } };
static void context(NodeType at, NodeType all) { me=at; nnodes=all; vtc_ctx->thisNode_=at; vtc_ctx->numNodes_=all; }
static void start(NodeType at, NodeType all) { nsent=nreduced=stage=nscatter=0; sized=true; arrive=nullptr; at_node=nullptr; vtc_make_context(0,1); context(at,all); theConfig()->vt_lb_self_migration=false; }
static Id obj(const char* s, NodeType at, bool mv=true) { Id i{vtc::any<uint64_t>(s),at}; REQUIRES(i.isMigratable()==mv); return i; }
static void objects(NodeType at, int mixed=3) { n=vtc::choose(4); for (int k=0;k<n;k++) { movable[k]=k>=mixed || vtc::choose(2); o[k]=obj("object",at,movable[k]); load[k]=0; for (int j=0;j<k;j++) REQUIRES(o[j].id!=o[k].id); } }
static int moves(lb::BaseLB& b, Id i, NodeType* to) { int c=0; for (auto& t : b.getTransfers()) if (std::get<0>(t).id==i.id) { c++; *to=std::get<1>(t); ENSURES("from-where-it-is", std::get<0>(t).curr_node==me); } return c; }
CONTRACT(rotated) { auto all=vtc_symbolic()?vtc::any_in<NodeType>("nodes",1,32767):vtc::any_in<NodeType>("nodes",1,3), at=vtc::any_in<NodeType>("this node",0,32766); REQUIRES(at<all); start(at,all); objects(at); auto* b=new lb::RotateLB(); b->load_model_=new Model(); b->runLB(0); NodeType next=at+1==all?0:at+1; int c=0; for (int k=0;k<n;k++) { NodeType to=-1; int m=moves(*b,o[k],&to); ENSURES("every-movable-object-once", m==(movable[k]&&next!=at)); if (m) { ENSURES("to-the-next-node", to==next); c++; } } ENSURES("nothing-else", (int)b->getTransfers().size()==c); }
CONTRACT(in_place) { auto at=vtc_symbolic()?vtc::any_in<NodeType>("this node",0,32766):vtc::any_in<NodeType>("this node",0,3); start(at,32767); theConfig()->vt_lb_self_migration=true; objects(at); auto* b=new lb::TestSerializationLB(); b->load_model_=new Model(); b->runLB(0); int c=0; for (int k=0;k<n;k++) { NodeType to=-1; int m=moves(*b,o[k],&to); ENSURES("every-movable-object-once", m==movable[k]); if (m) { ENSURES("in-place", to==at); c++; } } ENSURES("nothing-else", (int)b->getTransfers().size()==c); }
CONTRACT(random) { if (vtc_symbolic()) vtc_stop(); auto all=vtc::any_in<NodeType>("nodes",1,3), at=vtc::any_in<NodeType>("this node",0,2); REQUIRES(at<all); start(at,all); objects(at); auto* b=new lb::RandomLB(); b->load_model_=new Model(); b->seed_=vtc::any<int32_t>("seed"); b->phase_=vtc::any_in<PhaseType>("phase",0,100); b->runLB(0); int c=0, stay=0, mv=0; for (int k=0;k<n;k++) { NodeType to=-1; int m=moves(*b,o[k],&to); mv+=movable[k]; ENSURES("at-most-once-and-only-movable", m<=(int)movable[k]); if (m) { ENSURES("to-another-node-of-the-machine", (to>=0)&(to<all)&(to!=at)); c++; } else stay+=movable[k]; } ENSURES("nothing-else", (int)b->getTransfers().size()==c); ENSURES("never-all", mv==0 || stay>0);
  auto* d=new lb::RandomLB(); d->load_model_=new Model(); d->seed_=b->seed_; d->phase_=b->phase_; d->runLB(0); ENSURES("same-seed-same-moves", d->getTransfers()==b->getTransfers()); }
// what a node offers to the greedy balancer: the smallest objects first until it is no more above the threshold
static lb::BaseLB::StatisticMapType* stats(double max, double avg, double imb) { auto* s=new lb::BaseLB::StatisticMapType(); auto& q=(*s)[lb::Statistic::Rank_load_modeled]; q[lb::StatisticQuantity::max]=max; q[lb::StatisticQuantity::avg]=avg; q[lb::StatisticQuantity::sum]=avg; q[lb::StatisticQuantity::imb]=imb; return s; }
static int offered(lb::GreedyPayload const& p, Id i, int* bin) { int c=0; for (auto&& b : p.getSample()) for (auto&& e : b.second) if (e.id==i.id) { c++; *bin=b.first; } return c; }
CONTRACT(offered) { auto at=vtc_symbolic()?vtc::any_in<NodeType>("this node",0,2):vtc::any_in<NodeType>("this node",0,2); start(at,3); objects(at,1); static double const ls[3]={0.001,0.014,0.5}; double total=0; for (int k=0;k<n;k++) { load[k]=ls[vtc::choose(3)]; total+=load[k]; } static double const avgs[4]={0.,0.02,1.,0.02}; int cfg=vtc::choose(4); double avg=avgs[cfg]; bool even=n==1 && vtc::choose(2); auto* g=new G(); g->load_model_=new Model(); g->base_stats_=stats(1.,avg,even?0.01:0.5); g->min_threshold=0.5; g->max_threshold=1.; g->auto_threshold=cfg!=3; g->this_threshold=0.75; double th=(g->auto_threshold?0.5:0.75)*avg; g->runLB(total);
  if (even) { ENSURES("balanced-is-left-alone", nreduced==0); return; } ENSURES("offered-to-the-root-once", (nreduced==1)&&(reduced[0].root==0)&&(reduced[0].op==0)&&(reduced[0].fn==tag<&G::collectHandler>())); auto& p=*static_cast<lb::GreedyPayload*>(reduced[0].val); double left=total*1000; int maxoff=-1, minkept=1<<30, c=0; bool allmv=true;
  for (int k=0;k<n;k++) { int bin=0, m=offered(p,o[k],&bin); ENSURES("offered-at-most-once-and-only-movable", m<=(int)movable[k]); int want=((int)(load[k]*1000))/10*10+10; if (m) { c++; ENSURES("in-the-class-of-its-load", bin==want); left-=load[k]*1000; if (want>maxoff) maxoff=want; } else if (movable[k]) { allmv=false; if (want<minkept) minkept=want; } } int sz=0; for (auto&& b : p.getSample()) sz+=b.second.size(); ENSURES("nothing-else-offered", sz==c); ENSURES("small-ones-first", maxoff<=minkept); double e=left-p.getLoadProfile().at(at); ENSURES("the-rest-is-its-load", (p.getLoadProfile().size()==1)&(e<1e-6)&(-e<1e-6)); ENSURES("until-below-the-threshold", allmv || left<=th+1e-6); }
CONTRACT(combined) { start(0,3); lb::GreedyLBTypes::ObjSampleType a, b; int na=vtc::choose(3), nb=vtc::choose(3); static int const bins[2]={10,30}; int bin[4]; Id x[4]; for (int k=0;k<na+nb;k++) { x[k]=obj("object",k<na?0:1); for (int j=0;j<k;j++) REQUIRES(x[j].id!=x[k].id); bin[k]=bins[vtc::choose(2)]; (k<na?a:b)[bin[k]].push_back(x[k]); } double la=2.5, lb_=7.; lb::GreedyPayload p{a,la}; context(1,3); lb::GreedyPayload q{b,lb_}; auto r=p+q; int sz=0; for (auto&& e : r.getSample()) sz+=e.second.size(); ENSURES("all-of-both", sz==na+nb); for (int k=0;k<na+nb;k++) { int w=0; ENSURES("each-once-in-its-class", offered(r,x[k],&w)==1 && w==bin[k]); } ENSURES("loads-of-both", r.getLoadProfile().size()==2 && r.getLoadProfile().at(0)==la && r.getLoadProfile().at(1)==lb_); }
// the root places what was offered, heaviest first, always on the least loaded node; every node learns what leaves it
static G* gs[3]; static void go(int k) { context(k,nnodes); lb::BaseLB* b=gs[k]; (void)b; G::scatter_proxy.here=gs[k]; objgroup::proxy::vtc_Proxy<G>::here=gs[k]; }
CONTRACT(placed) { NodeType all=1+vtc::choose(3); start(0,all); n=vtc::choose(4); int bin[3], at[3]; lb::GreedyLBTypes::ObjSampleType s; static int const bins[2]={10,30}; for (int k=0;k<n;k++) { at[k]=all==1?0:vtc::choose(all); o[k]=obj("object",at[k]); for (int j=0;j<k;j++) REQUIRES(o[j].id!=o[k].id); bin[k]=bins[k==2?0:vtc::choose(2)]; s[bin[k]].push_back(o[k]); } lb::GreedyLBTypes::LoadProfileType pr; double ld[3], want[3]; static double const rests[2]={0.,25.}; for (int k=0;k<all;k++) { ld[k]=want[k]=k==0?12.:rests[vtc::choose(2)]; pr[k]=ld[k]; }
  int how=vtc::choose(3); for (int k=0;k<all;k++) { gs[k]=new G(); gs[k]->strat_=(lb::DataDistStrategy)how; } at_node=go; go(0); gs[0]->runBalancer(std::move(s),std::move(pr));
  for (int k=0;k<nsent;k++) { if (sent[k].fn==tag<&G::recvObjs>()) { ENSURES("to-a-node", (sent[k].node>=0)&(sent[k].node<all)); go(sent[k].node); gs[sent[k].node]->recvObjs(static_cast<lb::GreedySendMsg*>(sent[k].msg)); } else { ENSURES("to-all", sent[k].node==-1 && sent[k].fn==tag<&G::recvObjsBcast>()); for (int j=0;j<all;j++) { go(j); gs[j]->recvObjsBcast(static_cast<lb::GreedyBcastMsg*>(sent[k].msg)); } } }
  ENSURES("told-as-configured", (nscatter==(how==0))&(nsent==(how==0?0:how==1?1:(int)all))&sized); int total=0; for (int k=0;k<n;k++) { int where=at[k], c=0; for (int j=0;j<all;j++) for (auto& t : gs[j]->getTransfers()) if (std::get<0>(t).id==o[k].id) { c++; where=std::get<1>(t); ENSURES("its-own-node-moves-it", (j==at[k])&(std::get<0>(t).curr_node==at[k])); } total+=c; ENSURES("on-one-node", (c<=1)&(where>=0)&(where<all)); ENSURES("moves-only-to-another-node", c==(where!=at[k])); ld[where]+=bin[k]; } int ts=0; for (int j=0;j<all;j++) ts+=gs[j]->getTransfers().size(); ENSURES("nothing-else-moves", ts==total);
  int ord[3]={0,1,2}; for (int i=0;i<n;i++) for (int j=i+1;j<n;j++) if (bin[ord[j]]>bin[ord[i]]) { int t=ord[i]; ord[i]=ord[j]; ord[j]=t; } for (int i=0;i<n;i++) { int m=0; for (int j=1;j<all;j++) if (want[j]<want[m]) m=j; want[m]+=bin[ord[i]]; } auto sort=[&](double* v) { for (int i=0;i<all;i++) for (int j=i+1;j<all;j++) if (v[j]<v[i]) { double t=v[i]; v[i]=v[j]; v[j]=t; } }; sort(ld); sort(want); for (int j=0;j<all;j++) ENSURES("heaviest-first-on-the-least-loaded", ld[j]==want[j]); }
