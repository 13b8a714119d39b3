// Which load balancer runs in a phase: by specification file, by name and interval, or as the given distribution needs.
// @pre spec/pre.h
// @source vt/vrt/collection/balance/lb_invoke/lb_manager.cc vt/vrt/collection/balance/read_lb.cc vt/vrt/collection/balance/lb_type.cc vt/pipe/signal/signal_holder.cc
// @symsource @vtc/abs/std/string_inst.cc
// @opt stl_model=True
// @bounded by_name intervals up to 255 and phases up to 65535 (any by native search)
#include "vtc.h"
#include "vt/config.h"
#include "vt/vrt/collection/balance/lb_invoke/lb_manager.h"
#include "vt/vrt/collection/balance/lb_data_restart_reader.h"
#include "vt/vrt/collection/balance/read_lb.h"
#include "vt/configs/arguments/app_config.h"
#include <cstring>
namespace vtc_env { alignas(64) inline unsigned char cfg_mem[sizeof(vt::arguments::AppConfig)], man_mem[sizeof(vt::vrt::collection::balance::LBManager)], read_mem[sizeof(vt::vrt::collection::balance::LBDataRestartReader)]; }
using namespace vt; using namespace vt::vrt::collection::balance; using R=ReadLBConfig;
namespace vt { arguments::AppConfig* theConfig() { return reinterpret_cast<arguments::AppConfig*>(vtc_env::cfg_mem); } vrt::collection::balance::LBDataRestartReader* theLBDataReader() { return reinterpret_cast<LBDataRestartReader*>(vtc_env::read_mem); } }
static char const* const names[]={"NoLB","GreedyLB","HierarchicalLB","RotateLB","TemperedLB","OfflineLB","RandomLB","TestSerializationLB","TemperedWMin"};
static LBType const types[]={LBType::NoLB,LBType::GreedyLB,LBType::HierarchicalLB,LBType::RotateLB,LBType::TemperedLB,LBType::OfflineLB,LBType::RandomLB,LBType::TestSerializationLB,LBType::TemperedWMin};
static LBManager* man; static int name, changed; static PhaseType now;
static void start(int nm=1) { vtc_run_initializers("lb_type.cc"); auto* c=theConfig(); man=reinterpret_cast<LBManager*>(vtc_env::man_mem); name=nm; new (&c->vt_lb_name) std::string(names[name]); new (&c->vt_lb_file_name) std::string(); c->vt_lb=true; c->vt_lb_interval=vtc_symbolic()?vtc::any<uint8_t>("interval"):vtc::any_in<int>("interval",1,10); REQUIRES(c->vt_lb_interval>0); c->vt_lb_run_lb_first_phase=vtc::choose(2);
  now=vtc_symbolic()?vtc::any<uint16_t>("phase"):vtc::any_in<PhaseType>("phase",0,50); auto before=vtc::any<PhaseType>("phase asked before"); REQUIRES(before!=now); man->cached_phase_=before; man->cached_lb_=(LBType)vtc::any_in<int8_t>("balancer of that phase",0,9); changed=0; auto* d=&theLBDataReader()->changed_distro_; new (d) std::remove_reference_t<decltype(*d)>(); }
static bool moves(PhaseType p) { auto& d=theLBDataReader()->changed_distro_; return d.size()>p && d.at(p); }
static void distribution() { changed=vtc::choose(3); auto& d=theLBDataReader()->changed_distro_; now=vtc::choose(3); REQUIRES(man->cached_phase_!=now); for (int j=0;j<changed;j++) d.push_back(vtc::choose(2)); }
static void same_again(LBType t, bool file) { ENSURES("remembered-for-the-phase", man->decideLBToRun(now,file)==t); }
CONTRACT(by_name) { start(vtc::choose(9)); auto* c=theConfig(); bool file=vtc::choose(2); if (!file && vtc::choose(2)) c->vt_lb_file_name="spec"; if (name==5) REQUIRES(false); LBType t=man->decideLBToRun(now,file); PhaseType n=c->vt_lb_interval, first=c->vt_lb_run_lb_first_phase?0:1; bool due=n==1?(now>0||first==0):now%n==first; ENSURES("due-every-interval", t==(due?types[name]:LBType::NoLB)); same_again(t,file); }
CONTRACT(as_distribution_needs) { start(5); REQUIRES(name==5); distribution(); bool file=vtc::choose(2); LBType t=man->decideLBToRun(now,file); ENSURES("moves-when-the-distribution-changes", t==(moves(now)?LBType::OfflineLB:LBType::NoLB)); same_again(t,file); }
CONTRACT(switched_off) { start(vtc::choose(2)?5:2); theConfig()->vt_lb=false; LBType t=man->decideLBToRun(now,vtc::choose(2)); ENSURES("none", t==LBType::NoLB); same_again(t,true); }
CONTRACT(by_file) { start(); REQUIRES(name==1); distribution(); if (vtc_symbolic()) { new (&R::open_filename_) std::string(); new (&R::config_mod_) R::ConfigMapType(); new (&R::config_exact_) R::ConfigMapType(); new (&R::config_prec_) std::vector<ConfigIndex>(); } else R::clear(); R::open_filename_="spec"; theConfig()->vt_lb_file_name="spec"; int k=vtc::choose(9); ConfigIndex at=vtc::choose(3); R::config_exact_.emplace(at,ConfigEntry{at,names[k],{}}); LBType t=man->decideLBToRun(now,true); LBType want=(ConfigIndex)now==at?types[k]:LBType::NoLB; if (want==LBType::OfflineLB && !moves(now)) want=LBType::NoLB; ENSURES("as-specified", t==want); same_again(t,true); }
CONTRACT(unknown_name) { start(); theConfig()->vt_lb_name="Greedy"; theConfig()->vt_lb_interval=1; REQUIRES(now>0); vtc_expect_abort(1); man->decideLBToRun(now,true); ENSURES("refused", false); }
CONTRACT(no_interval) { start(); theConfig()->vt_lb_interval=0; REQUIRES(name!=5); vtc_expect_abort(1); man->decideLBToRun(now,true); ENSURES("refused", false); }
