// Component pack: what is built, in which order it starts, runs and is torn down.
// @source vt/pipe/signal/signal_holder.cc vt/runtime/component/component_pack.cc vt/runtime/component/diagnostic.cc vt/runtime/component/diagnostic_value.cc
// @symsource @vtc/abs/std/string_inst.cc
// @opt stl_model=True
// @bounded cycle_refused cycles of at most three components
// @bounded chain chains of four components
// @bounded three three components with any acyclic dependencies
// @bounded four four components with any acyclic startup dependencies
#include "vtc.h"
#include "vt/runtime/component/component_pack.h"
using namespace vt; using namespace vt::runtime::component;
enum { BUILT, INIT, START, FINAL, GONE }; static int when[4][5], tick; static bool polls[4], timed[4]; static int work[4], arg[4];
static void note(int k, int e) { ENSURES("each-step-once", when[k][e]==0); when[k][e]=++tick; }
template <int K> struct C : Component<C<K>> { C() { note(K,BUILT); } explicit C(int a) { arg[K]=a; note(K,BUILT); } ~C() { note(K,GONE); }
  std::string name() override { return std::string(1,(char)('A'+K)); } bool pollable() override { return polls[K]; } void initialize() override { note(K,INIT); } void startup() override { note(K,START); } void finalize() override { note(K,FINAL); } int progress(TimeType) override { return work[K]; } bool needsCurrentTime() override { return timed[K]; } };
static bool sd[4][4], rd[4][4], need[4];
template <int K> static void reg(ComponentPack& p, BaseComponent** ref) { p.registerComponent<C<K>>(reinterpret_cast<C<K>**>(ref),StartupDeps<>{},RuntimeDeps<>{}); }
template <int K> static registry::AutoHandlerType idx() { return registry::makeIdx<C<K>>(); }
template <int K> static void fresh() { const_cast<registry::AutoHandlerType&>(registry::Type<C<K>>::idx)=registry::Registrar<C<K>>().index; } // what the dynamic initialization of Type<>::idx does
static registry::AutoHandlerType ids[4]; static BaseComponent* refs[4];
static ComponentPack& pack(int n) { tick=0; for (auto& w : when) for (auto& x : w) x=0; for (int a=0;a<4;a++) { polls[a]=timed[a]=need[a]=false; work[a]=0; refs[a]=nullptr; for (int b=0;b<4;b++) sd[a][b]=rd[a][b]=false; }
  registry::getRegistry().clear(); fresh<2>(); fresh<0>(); fresh<3>(); fresh<1>(); ids[0]=idx<0>(); ids[1]=idx<1>(); ids[2]=idx<2>(); ids[3]=idx<3>(); 
  auto& p=*new ComponentPack; reg<0>(p,&refs[0]); if (n>1) reg<1>(p,&refs[1]); if (n>2) reg<2>(p,&refs[2]); if (n>3) reg<3>(p,&refs[3]); return p; }
static void startDep(int a, int b) { sd[a][b]=true; registry::getIdx(ids[a]).addStartupDep(ids[b]); }
static void runDep(int a, int b) { rd[a][b]=true; registry::getIdx(ids[a]).addRuntimeDep(ids[b]); }
static void add(ComponentPack& p, int a) { need[a]=true; switch (a) { case 0: p.add<C<0>>(); break; case 1: p.add<C<1>>(); break; case 2: p.add<C<2>>(); break; default: p.add<C<3>>(); } }
static void closure(int n) { for (int r=0;r<n;r++) for (int a=0;a<n;a++) for (int b=0;b<n;b++) if (need[a]&&(sd[a][b]||rd[a][b])) need[b]=true; }
static void checkBuilt(ComponentPack& p, int n) { closure(n); bool all=true,init=true,order=true,start=true,ref=true; for (int a=0;a<n;a++) { all&=(when[a][BUILT]!=0)==need[a]; ref&=(refs[a]!=nullptr)==need[a]; if (!need[a]) { start&=when[a][START]==0; continue; } init&=(when[a][BUILT]<when[a][INIT]); start&=when[a][START]!=0;
    for (int b=0;b<n;b++) { if (sd[a][b]) order&=when[b][INIT]<when[a][BUILT]; if (need[b]) start&=when[b][INIT]<when[a][START]; } }
  ENSURES("exactly-what-is-needed-is-built", all); ENSURES("initialized-after-construction", init); ENSURES("dependencies-are-up-first", order); ENSURES("started-after-everything-is-up", start); ENSURES("reachable-from-outside", ref); ENSURES("live", p.isLive()); ENSURES("none-torn-down", when[0][FINAL]+when[1][FINAL]+when[2][FINAL]+when[3][FINAL]==0); }
static void checkGone(ComponentPack& p, int n) { bool fin=true,order=true,gone=true; for (int a=0;a<n;a++) { fin&=(when[a][FINAL]!=0)==need[a]; gone&=(when[a][GONE]!=0)==need[a]; if (!need[a]) continue; order&=when[a][FINAL]<when[a][GONE]; for (int b=0;b<n;b++) if (sd[a][b]) order&=when[a][GONE]<when[b][FINAL]; }
  ENSURES("each-is-finalized", fin); ENSURES("each-is-destroyed", gone); ENSURES("dependencies-outlive-their-users", order); ENSURES("not-live", !p.isLive()); }
template <int N> static void anyGraph(bool acyclic) { for (int a=0;a<N;a++) for (int b=0;b<N;b++) if (acyclic?b<a:(a!=b)) if (vtc::choose(2)) startDep(a,b); }
// acyclic graphs over three components, numbered so that each depends on lower ones, or the reverse
CONTRACT(three) { auto& p=pack(3); bool rev=vtc::choose(2); for (int a=0;a<3;a++) for (int b=0;b<a;b++) if (vtc::choose(2)) { if (rev) startDep(b,a); else startDep(a,b); } int r=vtc::choose(7); if (r<6) { int a=r/2; int b=(a+1+r%2)%3; runDep(a,b); } int x=1+vtc::choose(3); for (int a=0;a<3;a++) if (x==3 ? a!=1 : a==x-1) add(p,a); p.construct(); checkBuilt(p,3); p.destruct(); checkGone(p,3); }
CONTRACT(four) { auto& p=pack(4); for (int a=0;a<4;a++) for (int b=0;b<a;b++) if (vtc::choose(2)) startDep(a,b); int x=vtc::choose(3); if (x!=1) add(p,3); if (x!=0) add(p,2); p.construct(); checkBuilt(p,4); p.destruct(); checkGone(p,4); }
// needed only through others: a chain in any order of the types, each link at startup or at run time
CONTRACT(chain) { auto& p=pack(4); int at[4], u[4]={0,1,2,3}; for (int k=0;k<4;k++) { int c=vtc::choose(4-k); at[k]=u[c]; u[c]=u[3-k]; } for (int k=0;k<3;k++) if (vtc::choose(2)) startDep(at[k],at[k+1]); else runDep(at[k],at[k+1]); int from=vtc::choose(2); add(p,at[from]); p.construct(); checkBuilt(p,4); p.destruct(); checkGone(p,4); }
CONTRACT(cycle_refused) { auto& p=pack(3); int k=vtc::choose(3); if (k==0) startDep(1,1); else if (k==1) { startDep(0,2); startDep(2,0); } else { startDep(0,1); startDep(1,2); startDep(2,0); } if (vtc::choose(2)) startDep(0,1); add(p,k==0?1:0); vtc_expect_abort(1); p.construct(); ENSURES("refused", false); }
CONTRACT(unregistered_refused) { auto& p=pack(1); int b=1+vtc::choose(3); switch (vtc::choose(3)) { case 0: startDep(0,b); break; case 1: runDep(0,b); break; default: add(p,b); } add(p,0); vtc_expect_abort(1); p.construct(); ENSURES("refused", false); }
// the components that asked for it are polled, once per call
CONTRACT(polling) { auto& p=pack(3); int m=vtc::choose(8); int want=0; bool t=false, tm=false; for (int k=0;k<3;k++) { polls[k]=(m>>k)&1; work[k]=vtc::any_in<int>("work",0,1000000); timed[k]=vtc::any<bool>("needs time"); if (polls[k]) { want+=work[k]; t|=timed[k]; } add(p,k); } p.construct(); ENSURES("work-of-all-polled-ones", p.progress(TimeType{1.0})==want); ENSURES("time-needed-if-a-polled-one-needs-it", p.needsCurrentTime()==t); p.destruct(); ENSURES("polled-no-more", p.progress(TimeType{1.0})==0); }
CONTRACT(registered_and_added_twice) { auto& p=pack(2); reg<0>(p,nullptr); startDep(1,0); startDep(1,0); add(p,1); add(p,1); p.construct(); checkBuilt(p,2); ENSURES("own-component-ids", refs[0]->component_id_!=refs[1]->component_id_); p.destruct(); checkGone(p,2); p.destruct(); checkGone(p,2); }
CONTRACT(constructor_arguments) { auto& p=pack(2); auto v=vtc::any<int>("argument"); { int a=v; p.registerComponent<C<2>>(reinterpret_cast<C<2>**>(&refs[2]),StartupDeps<C<1>>{},RuntimeDeps<C<0>>{},std::move(a)); } add(p,2); sd[2][1]=rd[2][0]=true; p.construct(); checkBuilt(p,3); ENSURES("bound-at-registration", arg[2]==v); }
CONTRACT(built_again) { auto& p=pack(2); startDep(0,1); add(p,0); p.construct(); p.destruct(); for (auto& w : when) for (auto& x : w) x=0; tick=0; p.construct(); checkBuilt(p,2); p.destruct(); checkGone(p,2); }
CONTRACT(destructor) { auto& p=pack(2); startDep(0,1); add(p,0); bool b=vtc::choose(2); if (b) { p.construct(); closure(2); } else need[0]=false; delete &p; for (int a=0;a<2;a++) ENSURES("torn-down", (when[a][FINAL]!=0)==b && (when[a][GONE]!=0)==b); if (b) ENSURES("user-first", when[0][GONE]<when[1][FINAL]); }
static int seen[4], nseen; static void see(BaseComponent* c) { ENSURES("a-component", c!=nullptr); for (int k=0;k<4;k++) if (refs[k]==c) seen[k]++; nseen++; }
// a component taken out belongs to the caller: the pack neither tears it down nor visits it; the others are unaffected
CONTRACT(taken_out) { auto& p=pack(3); startDep(0,1); startDep(1,2); add(p,0); p.construct(); int k=vtc::choose(4); for (int a=0;a<4;a++) seen[a]=0; nseen=0; std::unique_ptr<BaseComponent> out; switch (k) { case 0: out=p.extractComponent<C<0>>("A"); break; case 1: out=p.extractComponent<C<1>>("B"); break; case 2: out=p.extractComponent<C<2>>("C"); break; default: out=p.extractComponent<C<3>>("D"); }
  ENSURES("the-named-one", k<3?out.get()==refs[k]:out==nullptr); p.foreach(see); for (int a=0;a<3;a++) ENSURES("every-other-visited-once", seen[a]==(int)(a!=k)); ENSURES("nothing-else-visited", nseen==(k<3?2:3)); ENSURES("taken-out-once", k==3 || p.extractComponent<C<0>>(std::string(1,(char)('A'+k)))==nullptr); p.destruct();
  int last=0; for (int a=0;a<3;a++) { if (a==k) { ENSURES("left-alone", when[a][FINAL]+when[a][GONE]==0); continue; } ENSURES("others-torn-down-in-order", (when[a][FINAL]>last)&(when[a][GONE]>when[a][FINAL])); last=when[a][GONE]; } }
