// Parameters of the balancers: as given, refused when unknown.
// @pre lb/pre.h
// @source vt/vrt/collection/balance/read_lb.cc vt/vrt/collection/balance/lb_type.cc vt/vrt/collection/balance/greedylb/greedylb.cc vt/vrt/collection/balance/baselb/load_sampler.cc vt/vrt/collection/balance/randomlb/randomlb.cc vt/vrt/collection/balance/baselb/baselb.cc vt/context/context.cc vt/elm/elm_id.cc vt/elm/elm_id_bits.cc
// @symsource @vtc/abs/std/string_inst.cc
// @opt stl_model=True
// @bounded configured numbers are read natively only
#include "vtc.h"
#include "vtc_ctx.h"
#include "vt/vrt/collection/balance/greedylb/greedylb.h"
#include "vt/vrt/collection/balance/greedylb/greedylb_constants.h"
#include "vt/vrt/collection/balance/randomlb/randomlb.h"
#include "vt/vrt/collection/balance/rotatelb/rotatelb.h"
using namespace vt; using namespace vt::vrt::collection; using namespace vt::vrt::collection::balance; using G=lb::GreedyLB;
static void start() { vtc_make_context(0,3); }
CONTRACT(configured) { start(); std::map<std::string,std::string> p; bool num=!vtc_symbolic(); int mn=num?vtc::choose(2):0, mx=num?vtc::choose(2):0, au=vtc::choose(3), st=vtc::choose(4); if (mn) p["min"]="0.25"; if (mx) p["max"]="2.5"; if (au) p["auto"]=au==1?"true":"false"; static char const* const how[4]={"","scatter","pt2pt","bcast"}; if (st) p["strategy"]=how[st]; int bad=vtc::choose(3); if (bad==1) p["minimum"]="1"; if (bad==2) p["strategy"]="central"; ConfigEntry e{0,"GreedyLB",p}; G g; if (bad) vtc_expect_abort(1); g.inputParams(&e); ENSURES("unknown-refused", !bad);
  ENSURES("thresholds", (g.min_threshold==(mn?0.25:lb::greedy_threshold_p))&(g.max_threshold==(mx?2.5:(double)1.004f))); ENSURES("automatic", g.auto_threshold==(au!=2)); ENSURES("strategy", g.strat_==(st==2?lb::DataDistStrategy::pt2pt:st==3?lb::DataDistStrategy::bcast:lb::DataDistStrategy::scatter)); }
CONTRACT(random_configured) { if (vtc_symbolic()) vtc_stop(); start(); std::map<std::string,std::string> p; int sd=vtc::choose(2), rz=vtc::choose(3); int32_t v=vtc::any<int32_t>("seed"); if (sd) p["seed"]=std::to_string(v); if (rz) p["randomize_seed"]=rz==1?"true":"false"; bool bad=vtc::choose(2); if (bad) p["sed"]="1"; ConfigEntry e{0,"RandomLB",p}; lb::RandomLB b; if (bad) vtc_expect_abort(1); b.inputParams(&e); ENSURES("unknown-refused", !bad); ENSURES("seed", b.seed_==(sd?v:123456789)); ENSURES("randomized", b.randomize_seed_==(rz==1)); }
