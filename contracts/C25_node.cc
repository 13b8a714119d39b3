// Load data of a node: what its elements recorded reaches the balancers once, in the phase it was recorded in.
// @source vt/vrt/collection/balance/node_lb_data.cc vt/elm/elm_lb_data.cc vt/elm/elm_id.cc vt/elm/elm_id_bits.cc vt/context/context.cc
// @symsource @vtc/abs/std/string_inst.cc
// @opt stl_model=True
// @bounded elements_added two elements, at most two subphases, one edge each
// @bounded registered at most two collection elements and one object group
// @bounded old_phases_dropped two phases
#include "vtc.h"
#include "vtc_ctx.h"
#include "vt/vrt/collection/balance/node_lb_data.h"
#include "vt/vrt/collection/balance/lb_data_holder.h"
#include "vt/vrt/collection/balance/lb_invoke/lb_manager.h"
#include "vt/vrt/collection/balance/model/load_model.h"
#include "vt/elm/elm_lb_data.h"
using namespace vt; using namespace vt::elm; using namespace vt::vrt::collection::balance; using Id=ElementIDStruct; using K=CommKey;
namespace vtc_env { alignas(64) static unsigned char nlb_mem[sizeof(NodeLBData)], mgr_mem[sizeof(LBManager)]; }
namespace vt { NodeLBData* theNodeLBData() { return reinterpret_cast<NodeLBData*>(vtc_env::nlb_mem); } LBManager* theLBManager() { return reinterpret_cast<LBManager*>(vtc_env::mgr_mem); } }
static unsigned keep; static int asked;
struct Model : LoadModel { void setLoads(std::unordered_map<PhaseType,LoadMapType> const*, std::unordered_map<PhaseType,CommMapType> const*, std::unordered_map<PhaseType,DataMapType> const*) override {} void updateLoads(PhaseType) override {} LoadType getModeledLoad(Id, PhaseOffset) const override { return 0; } LoadType getRawLoad(Id, PhaseOffset) const override { return 0; } LoadType getModeledComm(Id, PhaseOffset) const override { return 0; } ElmUserDataType getUserData(Id, PhaseOffset) const override { return {}; } bool hasRawLoad() const override { return true; } bool hasUserData() const override { return false; } CommMapType getComm(PhaseOffset) const override { return {}; } unsigned getNumPastPhasesNeeded(unsigned l) const override { asked++; ENSURES("no-more-than-the-model-needs", l==0); return keep; } ObjectIterator begin() const override { return {nullptr}; } int getNumObjects() const override { return 0; } unsigned getNumCompletedPhases() const override { return 0; } int getNumSubphases() const override { return 1; } };
static double amount(const char* n) { if (vtc_symbolic()) { double d=vtc::any<double>(n); REQUIRES((d>=0)&(d<1e300)); return d+0.; } return (double)vtc::any_in<int>(n,0,1<<20); }
static bool is(double a, double b) { uint64_t x, y; __builtin_memcpy(&x,&a,8); __builtin_memcpy(&y,&b,8); return x==y; }
static Id el(const char* n) { return Id{vtc::any<uint64_t>(n),vtc::any<NodeType>(n)}; }
static NodeLBData* nd; static LBDataHolder* h;
static void start() { vtc_make_context(0,1); nd=theNodeLBData(); __builtin_memset(vtc_env::nlb_mem,0,sizeof vtc_env::nlb_mem); h=new LBDataHolder(); new (&nd->lb_data_) std::unique_ptr<LBDataHolder>(h); new (&nd->node_migrate_) decltype(nd->node_migrate_)(); new (&nd->node_collection_lookup_) decltype(nd->node_collection_lookup_)(); new (&nd->node_objgroup_lookup_) decltype(nd->node_objgroup_lookup_)(); new (&theLBManager()->model_) std::shared_ptr<LoadModel>(new Model()); keep=vtc::any<unsigned>("phases the model needs"); asked=0; }
static K edge(int k, Id a, Id b) { return k==0?K(K::SendRecvTag{},a,b,false):k==1?K(K::SendRecvTag{},a,b,true):K(K::CollectionToNodeTag{},a,(NodeType)3,false); }
CONTRACT(elements_added) { start(); PhaseType p=vtc::any_in<PhaseType>("phase",1,1u<<30); Id i[2]={el("element"),el("another element")}; REQUIRES(i[0].id!=i[1].id); ElementLBData* d[2]; double load[2], sub[2][2], by[2], old[2]; int n[2]; K e[2]; int same=vtc::choose(2);
  for (int k=0;k<2;k++) { d[k]=new ElementLBData(); d[k]->cur_phase_=p; load[k]=amount("load"); by[k]=amount("bytes"); old[k]=amount("load of the phase before"); n[k]=k?1:vtc::choose(3); d[k]->phase_timings_[p]=load[k]; auto& v=d[k]->subphase_timings_[p]; for (int s=0;s<n[k];s++) { sub[k][s]=amount("load of a subphase"); v.push_back(sub[k][s]); } d[k]->phase_timings_[p-1]=old[k]; e[k]=edge(vtc::choose(2),same?i[0]:i[k],i[1-k*!same]); d[k]->phase_comm_[p][e[k]]=CommVolume{by[k],2}; d[k]->subphase_comm_[p].resize(n[k]); if (n[k]) d[k]->subphase_comm_[p][n[k]-1][e[k]]=CommVolume{by[k],2}; }
  bool focus=vtc::choose(2); SubphaseType f=focus?0:ElementLBData::no_subphase; if (focus) REQUIRES(n[0]>0); for (int k=0;k<2;k++) nd->addNodeLBData(i[k],d[k],nullptr,f); ENSURES("of-that-phase-only", h->node_data_.size()==1 && nd->getNodeLoad()->count(p)==1); auto& m=nd->getNodeLoad()->at(p); ENSURES("every-element-once", m.size()==2);
  for (int k=0;k<2;k++) { auto& s=m.at(i[k]); ENSURES("its-load", is(s.whole_phase_load,focus?sub[k][0]:load[k])); ENSURES("its-subphases", (int)s.subphase_loads.size()==n[k]); for (int j=0;j<n[k];j++) ENSURES("its-subphases", is(s.subphase_loads[j],sub[k][j])); ENSURES("goes-on-to-the-next-phase", d[k]->getPhase()==p+1); ENSURES("dropped-iff-not-needed", d[k]->phase_timings_.count(p)==(std::size_t)(keep!=0) && d[k]->phase_timings_.count(p-1)==(std::size_t)(keep!=1)); }
  ENSURES("model-asked", asked==2); auto* c=nd->getNodeComm(p); ENSURES("communication-of-the-phase", c!=nullptr && nd->getNodeComm()->size()==1 && nd->getNodeComm(p+1)==nullptr); bool one=e[0]==e[1]; ENSURES("every-edge-once", c->size()==(one?1u:2u)); for (int k=0;k<2;k++) { auto& x=c->at(e[k]); ENSURES("all-of-an-edge", x.messages==(one?4u:2u) && is(x.bytes,one?by[0]+by[1]:by[k])); }
  auto& sc=nd->getNodeSubphaseComm()->at(p); int last=n[0]>1?1:0; for (int j=0;j<2;j++) { bool a=n[0]&&j==n[0]-1, b=j==0; auto it=sc.find((SubphaseType)j); if (!a&!b) { ENSURES("no-other-subphase", it==sc.end() || it->second.size()==0); continue; } ENSURES("in-its-subphase", it!=sc.end()); for (int k=0;k<2;k++) { bool mine=k?b:a, others=one&&(k?a:b); auto x=it->second.find(e[k]); ENSURES("in-its-subphase", (x!=it->second.end())==(mine||others)); if (mine||others) ENSURES("all-of-an-edge", x->second.messages==2u*mine+2u*others); } } (void)last; }
static int ran[3]; static NodeType to[3];
CONTRACT(registered) { start(); for (int k=0;k<3;k++) ran[k]=0; Id a=el("element"), b=el("another element"), g=el("object group"), x=el("unknown"); REQUIRES((a.id!=b.id)&(a.id!=g.id)&(b.id!=g.id)&(x.id!=a.id)&(x.id!=b.id)&(x.id!=g.id)); auto pa=vtc::any<VirtualProxyType>("collection"), pb=vtc::any<VirtualProxyType>("other collection"); auto pg=vtc::any<ObjGroupProxyType>("group"); bool both=vtc::choose(2);
  nd->registerCollectionInfo(a,pa,{1,2},[](NodeType n){ ran[0]++; to[0]=n; }); if (both) nd->registerCollectionInfo(b,pb,{3},[](NodeType n){ ran[1]++; to[1]=n; }); nd->registerObjGroupInfo(g,pg);
  ENSURES("collection-of-an-element", (nd->getCollectionProxyForElement(a)==pa) && (nd->getCollectionProxyForElement(b)==(both?pb:no_vrt_proxy)) && (nd->getCollectionProxyForElement(g)==no_vrt_proxy) && (nd->getCollectionProxyForElement(x)==no_vrt_proxy)); ENSURES("group-of-an-object", (nd->getObjGroupProxyForElement(g)==pg) && (nd->getObjGroupProxyForElement(a)==no_obj_group) && (nd->getObjGroupProxyForElement(x)==no_obj_group));
  ENSURES("only-elements-move", nd->hasObjectToMigrate(a) && nd->hasObjectToMigrate(b)==both && !nd->hasObjectToMigrate(g) && !nd->hasObjectToMigrate(x)); auto w=vtc::any<NodeType>("to"); int who=vtc::choose(4); Id y=who==0?a:who==1?b:who==2?g:x; bool r=nd->migrateObjTo(y,w); bool want=who==0||(who==1&&both); ENSURES("moved-iff-here", r==want); ENSURES("that-element-once", ran[0]==(who==0) && ran[1]==(who==1&&both)); if (want) ENSURES("to-that-node", to[who]==w);
  auto it=h->node_idx_.find(a); ENSURES("index-kept", it!=h->node_idx_.end() && std::get<0>(it->second)==pa && std::get<1>(it->second).size()==2 && std::get<1>(it->second)[1]==2); ENSURES("numbers-are-new", nd->getNextElm()!=nd->getNextElm());
  nd->startIterCleanup(vtc::any<PhaseType>("phase"),vtc::any<unsigned>("look back")); ENSURES("nothing-moves-after-balancing", !nd->migrateObjTo(a,w) && !nd->hasObjectToMigrate(b) && nd->getCollectionProxyForElement(a)==no_vrt_proxy && nd->getObjGroupProxyForElement(g)==no_obj_group && ran[0]==(who==0)); }
CONTRACT(old_phases_dropped) { start(); PhaseType p=vtc::any<PhaseType>("phase"), q=vtc::any<PhaseType>("another phase"), now=vtc::any<PhaseType>("now"); REQUIRES(p!=q); unsigned back=vtc::any<unsigned>("look back"); Id a=el("element"); PhaseType both[2]={p,q}; for (int k=0;k<2;k++) { auto x=both[k]; h->node_data_[x][a].whole_phase_load=k+1; h->node_comm_[x]; h->node_subphase_comm_[x]; h->user_defined_lb_info_[x]; h->node_user_attributes_[x]; } nd->startIterCleanup(now,back);
  for (int k=0;k<2;k++) { auto x=both[k]; std::size_t stays=!((now>=back)&(now-back==x)); ENSURES("only-the-phase-no-longer-needed", h->node_data_.count(x)==stays && h->node_comm_.count(x)==stays && h->node_subphase_comm_.count(x)==stays && h->user_defined_lb_info_.count(x)==stays && h->node_user_attributes_.count(x)==stays); if (stays) ENSURES("unchanged", h->node_data_.at(x).at(a).whole_phase_load==k+1); } }
