// A distribution given in advance: every phase's objects are where the distribution has them, moved there from where they were.
// @pre lb/pre.h
// @source vt/vrt/collection/balance/lb_data_restart_reader.cc vt/vrt/collection/balance/offlinelb/offlinelb.cc vt/vrt/collection/balance/baselb/baselb.cc vt/context/context.cc vt/elm/elm_id.cc vt/elm/elm_id_bits.cc
// @symsource @vtc/abs/std/string_inst.cc
// @opt stl_model=True
// @bounded read at most three phases and two objects
// @bounded announced at most three phases and two objects
#include "vtc.h"
#include "vtc_ctx.h"
#include "vt/vrt/collection/balance/offlinelb/offlinelb.h"
using namespace vt; using namespace vt::vrt::collection; using namespace vt::vrt::collection::balance; using namespace vtc_env; using Id=ElementIDStruct; using R=LBDataRestartReader;
namespace vtc_env { alignas(64) inline unsigned char cfg_mem[sizeof(arguments::AppConfig)]; inline R* rd=nullptr; }
namespace vt { arguments::AppConfig* theConfig() { return reinterpret_cast<arguments::AppConfig*>(vtc_env::cfg_mem); } R* theLBDataReader() { return vtc_env::rd; } NodeLBData* theNodeLBData() { return nullptr; } LBManager* theLBManager() { return nullptr; } phase::PhaseManager* thePhase() { return nullptr; } namespace timing { TimeType getCurrentTime() { return TimeType{0.}; } } }
bool ReadLBConfig::openConfig(std::string const&) { return false; } ConfigEntry* ReadLBConfig::entry(ConfigIndex const&) { return nullptr; } ConfigEntry ReadLBConfig::makeConfigFromParams(std::string) { return ConfigEntry(0,std::string(),{}); } CommMapType* NodeLBData::getNodeComm(PhaseType) { return nullptr; }
static NodeType me; static Id o[2]; static LBDataHolder* file; static int state[3], n; static bool movable[2];
static NodeType node(const char* s) { return vtc_symbolic()?vtc::any_in<NodeType>(s,0,32766):vtc::any_in<NodeType>(s,0,2); }
static Id obj(const char* s, bool mv=true) { Id i{vtc::any<uint64_t>(s),me}; REQUIRES(i.isMigratable()==mv); return i; }
static void start() { nsent=nreduced=nmoved=stage=0; arrive=nullptr; open_=nested=false; me=node("this node"); vtc_make_context(0,1); vtc_ctx->thisNode_=me; vtc_ctx->numNodes_=32767; theConfig()->vt_lb_self_migration=false; rd=new R(); }
// what the file says of each phase: 0 skipped, 1 identical to the last one listed, 2.. listed with the objects of this node (bits)
static void listed(bool mixed) { start(); file=new LBDataHolder(); movable[0]=true; movable[1]=!mixed || vtc::choose(2); o[0]=obj("object"); o[1]=obj("another object",movable[1]); REQUIRES(o[0].id!=o[1].id); n=1+vtc::choose(3); bool any=false; for (int p=0;p<n;p++) { int s=vtc::choose(6); if (!any && s==1) REQUIRES(false); state[p]=s; if (s==0) file->skipped_phases_.insert(p); else if (s==1) file->identical_phases_.insert(p); else { any=true; auto& d=file->node_data_[p]; for (int k=0;k<2;k++) if ((s-2)>>k&1) d[o[k]]; } } }
static bool has(int p, int k) { int s=state[p], q=p; while (s==1) s=state[--q]; return s>=2 && ((s-2)>>k&1) && movable[k]; } static bool known(int p) { return state[p]!=0; }
static int skipped_before_identical() { bool sk=false; for (int p=0;p<n;p++) { if (state[p]==0) sk=true; else if (state[p]==1 && sk) return 1; else sk=false; } return 0; }
CONTRACT(read) { listed(true); rd->readHistory(*file); ENSURES("every-phase-of-the-file", (int)rd->num_phases_==n); for (int p=0;p<n;p++) { auto it=rd->history_.find(p); ENSURES("distribution-of-every-phase-not-skipped", (it!=rd->history_.end() && it->second!=nullptr)==known(p)); if (!known(p) || skipped_before_identical()) continue; auto d=rd->getDistro(p); int c=0; for (int k=0;k<2;k++) { c+=has(p,k); auto e=d->find(o[k]); ENSURES("exactly-the-movable-objects-here", (e!=d->end())==has(p,k)); if (has(p,k)) ENSURES("here", e->curr_node==me); } ENSURES("nothing-else", (int)d->size()==c); } }
CONTRACT(unlisted_phase) { start(); file=new LBDataHolder(); int at=vtc::choose(2); file->node_data_[at?0:1]; file->node_data_[2]; vtc_expect_abort(1); rd->readHistory(*file); ENSURES("refused", false); }
static int told(void* fn, int p, Id i, int* where) { int c=0; for (int k=0;k<nsent;k++) { if (sent[k].fn!=fn) continue; if (fn==tag<&R::departing>()) { auto* m=static_cast<R::DepartMsg*>(sent[k].msg); if ((int)m->phase==p && m->elm==i) { c++; *where=sent[k].node; ENSURES("says-where", m->depart_node==me); } } else { auto* m=static_cast<R::ArriveMsg*>(sent[k].msg); if ((int)m->phase==p && m->elm==i) { c++; *where=sent[k].node; ENSURES("says-where", m->arrive_node==me); } } } return c; }
CONTRACT(announced) { listed(false); REQUIRES(!skipped_before_identical()); REQUIRES(n>1); rd->readHistory(*file); rd->determinePhasesToMigrate(); ENSURES("changes-agreed-on-once", (nreduced==1)&&(reduced[0].root==-1)&&(reduced[0].op==1)&&(reduced[0].fn==tag<&R::reduceDistroChanges>())); auto& v=*static_cast<std::vector<bool>*>(reduced[0].val); ENSURES("one-answer-per-change-of-phase", (int)v.size()==n-1); int total=0;
  for (int p=0;p+1<n;p++) { bool both=known(p)&&known(p+1), ch=false; for (int k=0;k<2;k++) { bool a=has(p,k), b=has(p+1,k); if (!both) continue; ch|=a!=b; int w=-1, c=told(tag<&R::departing>(),p+1,o[k],&w); ENSURES("home-told-of-every-departure-once", c==(a&&!b)); if (c) ENSURES("home-told", w==o[k].getHomeNode()); total+=c; c=told(tag<&R::arriving>(),p+1,o[k],&w); ENSURES("home-told-of-every-arrival-once", c==(b&&!a)); if (c) ENSURES("home-told", w==o[k].getHomeNode()); total+=c; } ENSURES("moves-iff-different", v[p]==ch); }
  ENSURES("nothing-else-told", nsent==total); ENSURES("one-epoch-after-the-other", (stage==2)&!nested); rd->reduceDistroChanges(v); auto p=vtc::any<PhaseType>("phase"); bool want=false; for (int k=0;k+1<n;k++) want|=(p==(PhaseType)k)&&v[k]; ENSURES("moves-when-agreed", rd->needsLB(p)==want); }
// at the home of an element: both ends are heard of, in whatever order
CONTRACT(joined) { start(); Id i=obj("object"), j=obj("another object"); REQUIRES(i.id!=j.id); auto from=node("from"), to=node("to"); auto p=vtc::any<PhaseType>("phase"), q=vtc::any<PhaseType>("another phase"); R::DepartMsg* d=::new R::DepartMsg(from,p,i); R::ArriveMsg* a=::new R::ArriveMsg(to,p,i); int which=vtc::choose(3); R::ArriveMsg* x=::new R::ArriveMsg(node("there"),which?q:p,which==2?i:j); REQUIRES(p!=q); envelopeSetRef(d->env,1); envelopeSetRef(a->env,1); envelopeSetRef(x->env,1); if (vtc::choose(2)) { rd->departing(d); rd->arriving(x); ENSURES("not-before-both", nsent==0); rd->arriving(a); } else { rd->arriving(a); rd->arriving(x); ENSURES("not-before-both", nsent==0); rd->departing(d); }
  ENSURES("new-node-told-once", (nsent==1) && sent[0].node==to && sent[0].fn==tag<&R::update>()); auto* m=static_cast<R::UpdateMsg*>(sent[0].msg); ENSURES("where-it-comes-from", (m->curr_node==from)&(m->phase==p)&&(m->elm==i)); }
// where an arriving element comes from: only in the phase it arrives in
CONTRACT(updated) { start(); Id i=obj("object"), j=obj("another object"); REQUIRES(i.id!=j.id); auto from=node("from"); PhaseType p=vtc::any_in<PhaseType>("phase",0,1u<<20); std::set<Id> s; s.insert(i); s.insert(j); rd->addDistro(p,s); bool same=vtc::choose(2); if (same) rd->addIdenticalPhase(p+1,p); else rd->addDistro(p+1,s); R::UpdateMsg* m=::new R::UpdateMsg(from,p,i); rd->update(m);
  auto d=rd->getDistro(p); auto e=d->find(i), f=d->find(j); ENSURES("comes-from-there", e!=d->end() && e->curr_node==from); ENSURES("others-untouched", f!=d->end() && f->curr_node==me && d->size()==2); auto d2=rd->getDistro(p+1); e=d2->find(i); ENSURES("stays-in-later-phases", e!=d2->end() && e->curr_node==me && d2->size()==2);
  auto* lb=new lb::OfflineLB(); bool later=vtc::choose(2); lb->phase_=later?p:p-1; REQUIRES(p>0); lb->runLB(0); auto& t=lb->getTransfers(); bool moves=!later && from!=me; ENSURES("moved-here-iff-elsewhere", t.size()==(std::size_t)moves); if (moves) ENSURES("moved-from-where-it-is", (std::get<0>(t[0]).id==i.id)&(std::get<0>(t[0]).curr_node==from)&(std::get<1>(t[0])==me)); ENSURES("used-up", rd->history_.count(later?p+1:p)==0 && rd->history_.count(later?p:p+1)==1); }
CONTRACT(never_given) { start(); auto* lb=new lb::OfflineLB(); lb->phase_=3; vtc_expect_abort(1); lb->runLB(0); ENSURES("refused", false); }
