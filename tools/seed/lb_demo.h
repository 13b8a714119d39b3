// what surrounds the load balancers in a demonstration: no other process, messages recorded by the stand-ins of pre.h
#define DEMO_CONTEXT
#include "demo.h"
#include "vt/vrt/collection/balance/greedylb/greedylb.h"
#include "vt/vrt/collection/balance/rotatelb/rotatelb.h"
#include "vt/vrt/collection/balance/offlinelb/offlinelb.h"
#include "vt/vrt/collection/balance/lb_data_restart_reader.h"
using namespace vt; using namespace vt::vrt::collection; using namespace vt::vrt::collection::balance; using namespace vtc_env; using Id=ElementIDStruct; using G=lb::GreedyLB; using RD=LBDataRestartReader;
static RD* reader; alignas(64) static unsigned char cfgmem[sizeof(arguments::AppConfig)], nlbmem[sizeof(NodeLBData)];
namespace vt { arguments::AppConfig* theConfig() { return reinterpret_cast<arguments::AppConfig*>(cfgmem); } NodeLBData* theNodeLBData() { return reinterpret_cast<NodeLBData*>(nlbmem); } LBManager* theLBManager() { return nullptr; } phase::PhaseManager* thePhase() { return nullptr; } LBDataRestartReader* theLBDataReader() { return reader; } namespace timing { TimeType getCurrentTime() { return TimeType{0.}; } } }
bool ReadLBConfig::openConfig(std::string const&) { return false; } ConfigEntry* ReadLBConfig::entry(ConfigIndex const&) { return nullptr; } ConfigEntry ReadLBConfig::makeConfigFromParams(std::string) { return ConfigEntry(0,std::string(),{}); }
CommMapType* NodeLBData::getNodeComm(PhaseType) { return nullptr; } bool NodeLBData::migrateObjTo(Id i, NodeType to) { moved[nmoved++]=Moved{i.id,to}; return true; }
struct Model : LoadModel { int subs=2; void setLoads(std::unordered_map<PhaseType,LoadMapType> const*, std::unordered_map<PhaseType,CommMapType> const*, std::unordered_map<PhaseType,DataMapType> const*) override {} void updateLoads(PhaseType) override {} LoadType getModeledLoad(Id o, PhaseOffset w) const override { return w.subphase==PhaseOffset::WHOLE_PHASE?100.:w.subphase; } LoadType getRawLoad(Id, PhaseOffset w) const override { return w.subphase==PhaseOffset::WHOLE_PHASE?7.:8.+w.subphase; } LoadType getModeledComm(Id, PhaseOffset) const override { return 0; } ElmUserDataType getUserData(Id, PhaseOffset) const override { return {}; } bool hasRawLoad() const override { return true; } bool hasUserData() const override { return false; } CommMapType getComm(PhaseOffset) const override { return {}; } unsigned getNumPastPhasesNeeded(unsigned l) const override { return l; } ObjectIterator begin() const override { return {nullptr}; } int getNumObjects() const override { return 0; } unsigned getNumCompletedPhases() const override { return 0; } int getNumSubphases() const override { return subs; } };
struct Strat : lb::BaseLB { std::vector<std::pair<Id,NodeType>> ask; void inputParams(ConfigEntry*) override {} void runLB(LoadType) override { for (auto& a : ask) migrateObjectTo(a.first,a.second); } };
static Id obj(uint64_t n, NodeType home, NodeType at) { Id i; i.id=elm::ElmIDBits::createCollectionImpl(true,n,home,at).id; i.curr_node=at; return i; }
static void here(NodeType n, NodeType all) { demo_context(n,all); nnodes=all; static bool once=false; if (!once) { new (&theConfig()->vt_lb_file_name) std::string(); new (&theConfig()->vt_lb_args) std::string(); once=true; } }
