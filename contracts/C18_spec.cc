// The load balancer that runs in a phase is the one the specification asks for, with the parameters it gives.
// @pre spec/pre.h
// @source vt/vrt/collection/balance/read_lb.cc vt/vrt/collection/balance/lb_type.cc
// @symsource @vtc/abs/std/string_inst.cc
// @opt stl_model=True
// @bounded precedence at most two exact lines and three repeated ones, phases below 256 (any phase by native search)
// @bounded split at most two parameters of at most five characters
// @bounded keys_allowed at most two parameters and two allowed keys
#include "vtc.h"
#include "vt/vrt/collection/balance/read_lb.h"
#include <cstring>
#include <cstdlib>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
using namespace vt; using namespace vt::vrt::collection::balance; using R=ReadLBConfig; using Params=R::ParamMapType;
static void fresh() { vtc_run_initializers("lb_type.cc"); if (vtc_symbolic()) { new (&R::open_filename_) std::string(); new (&R::config_mod_) R::ConfigMapType(); new (&R::config_exact_) R::ConfigMapType(); new (&R::config_prec_) std::vector<ConfigIndex>(); R::has_offline_lb_=R::read_complete_=false; } else R::clear(); }
static char const* const names[]={"NoLB","GreedyLB","HierarchicalLB","RotateLB","TemperedLB","OfflineLB","RandomLB","TestSerializationLB","TemperedWMin"};
static LBType const types[]={LBType::NoLB,LBType::GreedyLB,LBType::HierarchicalLB,LBType::RotateLB,LBType::TemperedLB,LBType::OfflineLB,LBType::RandomLB,LBType::TestSerializationLB,LBType::TemperedWMin};
static void put(R::ConfigMapType& m, ConfigIndex i, char const* n, Params p={}) { m.emplace(i,ConfigEntry{i,n,p}); }
CONTRACT(precedence) { fresh(); ConfigIndex e[2], m[3]; int ne=vtc::choose(3), nm=vtc::choose(4); for (int j=0;j<ne;j++) { e[j]=vtc::any_in<ConfigIndex>("phase",0,1<<30); for (int i=0;i<j;i++) REQUIRES(e[i]!=e[j]); put(R::config_exact_,e[j],"GreedyLB"); } for (int j=0;j<nm;j++) { m[j]=vtc_symbolic()?vtc::any<uint8_t>("every"):vtc::any_in<ConfigIndex>("every",1,1<<30); REQUIRES(m[j]>0); for (int i=0;i<j;i++) REQUIRES(m[i]!=m[j]); put(R::config_mod_,m[j],"RotateLB"); R::config_prec_.push_back(m[j]); }
  ConfigIndex p=vtc_symbolic()?vtc::any<uint8_t>("now"):vtc::any_in<ConfigIndex>("now",0,1<<30); int ie=-1, im=-1; for (int j=0;j<ne;j++) if (e[j]==p) ie=j; for (int j=nm-1;j>=0;j--) if (p%m[j]==0) im=j; auto* r=R::entry(p); if (ie>=0) { ENSURES("line-of-the-phase-itself-first", r!=nullptr && r->getIdx()==p && r->getName()=="GreedyLB"); ENSURES("its-balancer", R::getLB(p)==LBType::GreedyLB); } else if (im>=0) { ENSURES("first-matching-repeated-line", r!=nullptr && r->getIdx()==m[im] && r->getName()=="RotateLB"); ENSURES("its-balancer", R::getLB(p)==LBType::RotateLB); } else { ENSURES("none-applies", r==nullptr); ENSURES("no-balancer", R::getLB(p)==LBType::NoLB); } ENSURES("nothing-changed", R::numEntries()==ne+nm); }
CONTRACT(every_name) { fresh(); int k=vtc::choose(9); ConfigEntry e{vtc::any<ConfigIndex>("line"),names[k],{}}; ENSURES("balancer-of-that-name", e.getLB()==types[k]); ConfigEntry u{0,"GreedyL",{}}; ENSURES("unknown-is-none", u.getLB()==LBType::NoLB); }
static std::string text(int most, char const* name) { int n=vtc::choose(most+1); std::string s; for (int i=0;i<n;i++) { char c=vtc::any<char>(name); REQUIRES(c!=0); s.push_back(c); } return s; }
static int equals_sign(std::string const& s) { for (std::size_t i=0;i<s.size();i++) if (s[i]=='=') return i; return -1; }
CONTRACT(split) { int n=vtc::choose(3); std::vector<std::string> v; bool good=true; for (int j=0;j<n;j++) { v.push_back(text(j?3:5,"character")); if (v[j].size()&&equals_sign(v[j])<0) good=false; } if (!good) vtc_expect_abort(1); auto m=R::parseParams(v); ENSURES("malformed-refused", good); int last[2]={-1,-1}; std::string k[2], w[2]; for (int j=0;j<n;j++) { int q=equals_sign(v[j]); if (q<0) continue; k[j]=v[j].substr(0,q); w[j]=v[j].substr(q+1); last[j]=j; if (j==1&&last[0]>=0&&k[0]==k[1]) last[0]=-1; } int want=0; for (int j=0;j<n;j++) if (last[j]>=0) { want++; auto i=m.find(k[j]); ENSURES("key-and-value", i!=m.end() && i->second==w[j]); } ENSURES("no-other", (int)m.size()==want); }
CONTRACT(keys_allowed) { Params p; std::vector<std::string> a; int np=vtc::choose(3), na=vtc::choose(3); std::string k[2]; for (int j=0;j<np;j++) { k[j]=text(2,"key"); p[k[j]]="1"; } for (int j=0;j<na;j++) a.push_back(text(2,"allowed")); bool good=true; for (int j=0;j<np;j++) { bool in=false; for (int i=0;i<na;i++) in|=a[i]==k[j]; good&=in; } ConfigEntry e{1,"GreedyLB",p}; if (!good) vtc_expect_abort(1); e.checkAllowedKeys(a); ENSURES("others-refused", good); }
CONTRACT(parameters) { Params p; p["a"]="true"; p["b"]="f"; p["c"]="1"; p["d"]="0"; p["e"]="maybe"; p["s"]="text"; p["n"]=""; ConfigEntry e{1,"GreedyLB",p}; bool d=vtc::choose(2); ENSURES("as-given", e.getOrDefault<bool>("a",d) && !e.getOrDefault<bool>("b",d) && e.getOrDefault<bool>("c",d) && !e.getOrDefault<bool>("d",d)); ENSURES("default-if-unreadable", e.getOrDefault<bool>("e",d)==d); ENSURES("default-if-not-given", e.getOrDefault<bool>("x",d)==d && e.getOrDefault<std::string>("x","dflt")=="dflt" && e.getOrDefault<std::string>("n","dflt")=="dflt"); ENSURES("as-given", e.getOrDefault<std::string>("s","dflt")=="text"); auto i=vtc::any<int32_t>("default"); ENSURES("default-if-not-given", e.getOrDefault<int32_t>("x",i)==i); }
CONTRACT(cleared) { fresh(); put(R::config_exact_,vtc::any<ConfigIndex>("phase"),"GreedyLB"); put(R::config_mod_,2,"RotateLB"); R::config_prec_.push_back(2); R::open_filename_="spec"; R::has_offline_lb_=true; R::clear(); ENSURES("nothing-left", (R::numEntries()==0) && R::entry(vtc::any<ConfigIndex>("now"))==nullptr && !R::hasOfflineLB() && R::open_filename_.empty() && R::config_prec_.empty()); ENSURES("no-file-no-specification", !R::openConfig("")); }
CONTRACT(opened_twice) { fresh(); R::open_filename_="spec"; put(R::config_exact_,3,"GreedyLB"); ENSURES("same-file-again", R::openConfig("spec") && R::numEntries()==1); ENSURES("no-file", !R::openConfig("") && R::numEntries()==1); vtc_expect_abort(1); R::openConfig("other"); ENSURES("other-file-refused", false); }

#include <linux/close_range.h>
static int fd=-1; static char path[40];
static void file(std::string const& t) { if (fd<0) { fd=memfd_create("spec",0); std::snprintf(path,sizeof path,"/proc/self/fd/%d",fd); } if (ftruncate(fd,0)||pwrite(fd,t.data(),t.size(),0)!=(ssize_t)t.size()) std::abort(); }

static std::string blanks(int least) { std::string s; int n=least+vtc::choose(3); for (int j=0;j<n;j++) s+=vtc::choose(4)?' ':'\t'; return s; }
// a file written in any of the ways the format allows (run on real files: standard streams are not within reach)
CONTRACT(whole_file) { if (vtc_symbolic()) vtc_stop(); if (fd>=0) close_range(fd+1,~0u,0); fresh(); int n=1+vtc::choose(4); std::string t; ConfigIndex ix[4]; int nm[4]; bool rep[4]; int np[4]; int iv[4][2]; bool good=true; for (int j=0;j<n;j++) { nm[j]=vtc::choose(10); rep[j]=vtc::choose(2); int how=vtc::choose(8); ix[j]=how==0?0:vtc::any_in<ConfigIndex>("index",1,12); bool none=vtc::choose(6)==0; if (none) { rep[j]=true; ix[j]=1; } t+=blanks(0); if (rep[j]&&(!none||vtc::choose(2))) t+="%"+blanks(0); if (!none) t+=std::to_string(ix[j])+blanks(1); t+=nm[j]<9?names[nm[j]]:"NoSuchLB"; np[j]=vtc::choose(3); for (int k=0;k<np[j];k++) { iv[j][k]=vtc::any_in<int>("value",-5,50); t+=blanks(1)+(k?"k=":"c=")+std::to_string(iv[j][k]); } t+=blanks(0); if (j+1<n||vtc::choose(2)) t+=vtc::choose(4)?"\n":"\n\n";
    if (nm[j]==9||(rep[j]&&ix[j]==0)) good=false; for (int i=0;i<j;i++) if (rep[i]==rep[j]&&ix[i]==ix[j]) good=false; }
  file(t); if (!good) vtc_expect_abort(1); bool ok=R::openConfig(path); ENSURES("bad-specification-refused", good); ENSURES("read", ok && R::numEntries()==n); bool off=false; for (int j=0;j<n;j++) { auto& m=rep[j]?R::config_mod_:R::config_exact_; auto i=m.find(ix[j]); ENSURES("line-is-there", i!=m.end()); off|=nm[j]==5; auto& e=i->second; ENSURES("as-written", e.getIdx()==ix[j] && e.getLB()==types[nm[j]] && (int)e.getParams().size()==np[j]); for (int k=0;k<np[j];k++) ENSURES("parameters-as-written", e.getOrDefault<int32_t>(k?"k":"c",-99)==iv[j][k]); } ENSURES("offline-iff-asked", R::hasOfflineLB()==off);
  for (ConfigIndex p=0;p<=24;p++) { int w=-1; for (int j=n-1;j>=0;j--) if (rep[j]&&p%ix[j]==0) w=j; for (int j=0;j<n;j++) if (!rep[j]&&ix[j]==p) w=j; ENSURES("runs-as-specified", R::getLB(p)==(w<0?LBType::NoLB:types[nm[w]])); } }
CONTRACT(parameters_from_a_string) { if (vtc_symbolic()) vtc_stop(); int n=vtc::choose(3); std::string t=blanks(0); int v[2]; for (int j=0;j<n;j++) { v[j]=vtc::any_in<int>("value",-5,50); t+=(j?"k=":"c=")+std::to_string(v[j])+blanks(1); } auto e=R::makeConfigFromParams(t); ENSURES("as-written", (int)e.getParams().size()==n); for (int j=0;j<n;j++) ENSURES("as-written", e.getOrDefault<int32_t>(j?"k":"c",-99)==v[j]); }
CONTRACT(numbers) { if (vtc_symbolic()) vtc_stop(); Params p; int a=vtc::any<int>("int"); p["i"]=std::to_string(a); p["d"]="2.5"; p["w"]="word"; ConfigEntry e{1,"GreedyLB",p}; ENSURES("as-given", e.getOrDefault<int32_t>("i",7)==a && e.getOrDefault<double>("d",7.)==2.5); ENSURES("default-if-unreadable", e.getOrDefault<int32_t>("w",7)==7 && e.getOrDefault<double>("w",7.)==7.); }
