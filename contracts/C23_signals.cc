// Delivering a signal to the listeners of a pipe, and the state of a pipe.
// @source vt/pipe/signal/signal_holder.cc vt/pipe/state/pipe_state.cc
// @symsource @vtc/abs/std/string_inst.cc
// @opt stl_model=True
// @bounded deliver up to three listeners
// @assume a listener is triggered no more often than its count of uses
#include "vtc.h"
#include "vt/pipe/signal/signal_holder.h"
#include "vt/pipe/callback/anon/callback_anon_listener.h"
#include "vt/pipe/state/pipe_state.h"
#include <cstdlib>
using namespace vt; using namespace vt::pipe; using Sig=signal::Signal<int>; using Holder=signal::SignalHolder<Sig>; using Lis=callback::AnonListener<Sig>;
static int ran[8], order[16], n; static int* with[8];
struct Fn { int k; void operator()(int* d) const { ran[k]++; with[k]=d; order[n++&15]=k; } };
static void reset() { n=0; for (int k=0;k<8;k++) { ran[k]=0; with[k]=nullptr; } }
static Lis* addTo(Holder& h, PipeType p, int k, bool persist, PipeRefType refs) { auto l=std::make_unique<Lis>(Fn{k},persist,refs); auto* r=l.get(); h.addListener(p,std::move(l)); return r; }
CONTRACT(deliver) { reset(); Holder h; auto p=vtc::any<PipeType>("pipe"), q=vtc::any<PipeType>("another pipe"); REQUIRES(p!=q); int m=1+vtc::choose(3); bool persist[3]; PipeRefType refs[3]; Lis* ls[3];
  for (int k=0;k<m;k++) { persist[k]=vtc::choose(2); refs[k]=vtc::any_in<PipeRefType>("uses",1,32767); ls[k]=addTo(h,p,k,persist[k],refs[k]); } addTo(h,q,7,false,1); ENSURES("adding-runs-nothing", n==0); ENSURES("pipe-known", h.exists(p));
  int d; h.deliverAll(p,&d); int left=0; for (int k=0;k<m;k++) { ENSURES("each-listener-once-with-the-data", (ran[k]==1)&(with[k]==&d)); ENSURES("in-order", order[k]==k); left+=(int)(persist[k]||refs[k]>1); } ENSURES("other-pipe-untouched", (ran[7]==0) && h.exists(q)); ENSURES("nothing-else", n==m);
  ENSURES("pipe-known-while-listeners-remain", h.exists(p)==(left>0)); if (left) { auto& li=h.listeners_.find(p)->second; ENSURES("used-up-listeners-removed", (int)li.size()==left); auto it=li.begin(); for (int k=0;k<m;k++) if (persist[k]||refs[k]>1) { ENSURES("others-kept-in-order", (it->get()==ls[k])); ++it; } n=0; int e; h.deliverAll(p,&e); int i=0; for (int k=0;k<m;k++) { bool stay=persist[k]||refs[k]>1; ENSURES("second-signal-runs-the-remaining", (ran[k]==1+(int)stay)); if (stay) ENSURES("second-in-order", order[i++]==k); } } }
CONTRACT(no_listener_refused) { reset(); Holder h; auto p=vtc::any<PipeType>("pipe"), q=vtc::any<PipeType>("another pipe"); REQUIRES(p!=q); addTo(h,q,0,true,1); vtc_expect_abort(1); h.deliverAll(p,nullptr); ENSURES("refused", false); }
CONTRACT(clear) { reset(); Holder h; auto p=vtc::any<PipeType>("pipe"), q=vtc::any<PipeType>("another pipe"); REQUIRES(p!=q); addTo(h,p,0,true,1); addTo(h,q,1,true,1); if (vtc::choose(2)) { h.clearAllListeners(p); ENSURES("listeners-gone", h.listeners_.find(p)->second.empty()); int d; h.deliverAll(q,&d); ENSURES("other-pipe-untouched", (ran[1]==1)&(ran[0]==0)); } else { h.clearAll(); ENSURES("all-gone", !h.exists(p) && !h.exists(q)); } }
CONTRACT(uses) { reset(); auto r=vtc::any_in<PipeRefType>("uses",1,32767); bool persist=vtc::choose(2); Lis l(Fn{0},persist,r); ENSURES("fresh", !l.expired() && !l.finished()); int d; l.trigger(&d,PipeType{5}); ENSURES("runs-once", (ran[0]==1)&(with[0]==&d)); ENSURES("finished-after-its-last-use", l.finished()==(!persist & (r==1))); ENSURES("expired-after-its-last-use", l.expired()==(!persist & (r==1))); ENSURES("counts-down", persist || l.refs_==r-1); }
CONTRACT(counts) { reset(); Holder h; auto p=vtc::any<PipeType>("pipe"), q=vtc::any<PipeType>("another pipe"); auto c=vtc::any<int32_t>("count"), e=vtc::any<int32_t>("other count"); REQUIRES(p!=q); ENSURES("unknown-count", h.getCount(p)==-1); h.setCount(p,c); h.setCount(q,e); ENSURES("own-count", (h.getCount(p)==c)&(h.getCount(q)==e)); h.setCount(p,e); ENSURES("latest-count", h.getCount(p)==e); }
CONTRACT(holders_have_own_ids) { Holder a,b; ENSURES("different", a.getID()!=b.getID()); }
static PipeState one(bool typeless) { return PipeState(PipeType{9},1,1,typeless); }
CONTRACT(state_once) { auto p=vtc::any<PipeType>("pipe"); bool t=vtc::choose(2); PipeState s(p,1,1,t); ENSURES("automatic", s.isAutomatic()&!s.isPersist()&(s.isTypeless()==t)&(s.getPipe()==p)&(s.refsPerListener()==1)); ENSURES("not-finished", !s.finished()); if (vtc::choose(2)) { s.listenerReg(); ENSURES("not-finished-by-registering", !s.finished()); s.signalRecv(); } else { s.signalRecv(); ENSURES("not-finished-without-listener", !s.finished()); s.listenerReg(); } ENSURES("finished-after-its-signal", s.finished()); }
CONTRACT(state_persistent) { auto p=vtc::any<PipeType>("pipe"); bool t=vtc::choose(2); PipeState s(p,t); s.num_signals_received_=vtc::any<PipeRefType>("signals"); s.num_listeners_received_=vtc::any<PipeRefType>("listeners"); ENSURES("never-finished", s.isPersist()&!s.isAutomatic()&!s.finished()&(s.isTypeless()==t)&(s.getPipe()==p)); }
static int got; static std::byte* gotp;
CONTRACT(state_dispatch) { got=0; PipeState s(PipeType{3},true); ENSURES("none-yet", !s.hasDispatch()); s.setDispatch([](std::byte* b){ got++; gotp=b; }); ENSURES("set", s.hasDispatch()); std::byte x; s.dispatch(&x); ENSURES("dispatched-once", (got==1)&(gotp==&x)); }
CONTRACT(state_no_dispatch_refused) { PipeState s(PipeType{3},true); vtc_expect_abort(1); s.dispatch(nullptr); ENSURES("refused", false); }
