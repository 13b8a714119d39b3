// Where an element is: messages find it, questions are answered, wherever it moves.
// @pre loc/pre.h
// @source vt/pipe/signal/signal_holder.cc vt/handler/handler.cc vt/context/context.cc vt/epoch/epoch_manip.cc
// @symsource @vtc/abs/std/string_inst.cc
// @opt stl_model=True
// @bounded several_nodes_creation three nodes, one element, two messages, any order of arrival
// @bounded several_nodes_migration three nodes, one element moved once, two messages, any order of arrival
#include "vtc.h"
#include "vtc_ctx.h"
#include "vt/pool/pool.h"
#include <cstdlib>
namespace vtc_env { alignas(64) inline unsigned char pool[sizeof(vt::pool::Pool)]; }
namespace vt { pool::Pool* thePool() { return reinterpret_cast<pool::Pool*>(vtc_env::pool); }
namespace pool { std::byte* Pool::alloc(size_t const& n, size_t o) { return static_cast<std::byte*>(std::malloc(n+o)); } void Pool::dealloc(std::byte* p) { std::free(p); } } }
using namespace vtc_env; using namespace vt; using namespace vt::location; using Loc=EntityLocationCoord<int>; using Rec=LocRecord<int>;
struct TMsg : EntityMsg<int,vt::Message> { int v=0; }; struct Big : EntityMsg<int,vt::Message> { char v[300]; };
static NodeType me, home; static int id, id2; static Loc* L;
static NodeType node(const char* n) { return vtc_symbolic()?vtc::any_in<NodeType>(n,0,32766):vtc::any_in<NodeType>(n,0,3); }
static int where() { return vtc_ctx->thisNode_; }
static void clean() { vtc_make_context(0,1); vtc_ctx->numNodes_=32767; nsent=nruns=nunits=depth=nmarked=0; bad_pop=false; here=where; on_run=nullptr; }
enum { NONE, LOCAL, REMOTE };
static int st; static bool reg; static NodeType rn;
static Loc* fresh(NodeType at) { vtc_ctx->thisNode_=at; return new Loc; }
static void put(int i, int s, NodeType n) { if (s!=NONE) L->recs_.insert(i,home,Rec{i,s==LOCAL?eLocState::Local:eLocState::Remote,s==LOCAL?me:n}); }
// any node in any state with respect to one element: registered here or not, and what is recorded of it
static void any_state(bool may_reg=true) { clean(); me=node("this node"); home=node("home"); id=vtc::any<int>("element"); id2=vtc::any<int>("another element"); REQUIRES(id!=id2); L=fresh(me); reg=may_reg&&vtc::choose(2); st=reg?LOCAL:(vtc::choose(2)?REMOTE:NONE); rn=node("recorded at"); if (reg) { L->local_registered_.insert(id); if (vtc::choose(2)) { st=REMOTE; } } put(id,st,rn); msg_ep=vtc::any<uint64_t>("epoch"); }
template <typename M=TMsg> static MsgSharedPtr<M> msg() { return makeMessage<M>(); }
static bool rec_is(int i, int s, NodeType n) { if (!L->recs_.exists(i)) return s==NONE; auto const& r=L->recs_.get(i); return (s!=NONE)&(r.isLocal()==(s==LOCAL))&(r.isRemote()==(s==REMOTE))&(r.getRemoteNode()==n)&(r.getEntityID()==i); }
static bool sent_is(int k, Kind kd, int to) { return sent[k].kind==kd && sent[k].to==to && sent[k].id==id; }
static std::size_t waiting(int i) { auto it=L->pending_lookups_.find(i); return it==L->pending_lookups_.end()?0:it->second.size(); }
// a message on its way, at any node
template <typename M> static void check_route(M* m, NodeType from, NodeType ask, int64_t han) {
  ENSURES("epochs-balanced", (depth==0)&!bad_pop); ENSURES("epoch-held-throughout", !dips(msg_ep));
  if (reg) { ENSURES("element-here-gets-it-once", (nruns==1) && (runs[0].msg==m)&(runs[0].han==han)&(runs[0].from==from)&runs[0].td); ENSURES("in-the-epoch-of-the-message", runs[0].ep==msg_ep); bool tell=(ask!=uninitialized_destination)&(ask!=me); ENSURES("who-asked-is-told-where-it-is", (nsent==(int)tell) && (!tell || (sent_is(0,Eager,ask)&&(sent[0].a==home)&(sent[0].b==me)))); ENSURES("record-says-here", rec_is(id,LOCAL,me)); ENSURES("nothing-waits", (waiting(id)==0)&(balance(msg_ep)==0)); }
  else { NodeType to=st==REMOTE?rn:home; ENSURES("not-run-where-it-is-not", nruns==0);
    if (to!=me) { ENSURES("sent-on-once-to-where-it-should-be", (nsent==1) && sent_is(0,Routed,to)&&(sent[0].msg==m)); ENSURES("next-node-knows-who-asks", m->getAskNode()==me); auto it=L->loc_asks_.find(id); bool noted=it!=L->loc_asks_.end() && it->second.count(ask); ENSURES("who-asked-is-remembered", (ask==uninitialized_destination)|noted); ENSURES("nothing-waits", (waiting(id)==0)&(balance(msg_ep)==0)); }
    else { ENSURES("kept-until-it-is-known", (nsent==0)&(waiting(id)==1)); ENSURES("epoch-held-meanwhile", balance(msg_ep)==1); } }
  ENSURES("others-untouched", (waiting(id2)==0)&&rec_is(id2,NONE,0)); ENSURES("still-the-same-message", (m->getEntity()==id)&(m->getHomeNode()==home)&(m->getLocFromNode()==from)); }
CONTRACT(route_new) { any_state(); auto m=msg(); m->setHandler(77); if (vtc::choose(2)) { L->routeMsg(id,home,m); check_route(m.get(),me,uninitialized_destination,77); } else { auto f=node("from"); L->routeMsg(id,home,m,f); check_route(m.get(),f,uninitialized_destination,77); } }
CONTRACT(route_arriving) { any_state(); auto m=msg(); auto f=node("from"), a=vtc::choose(2)?node("asks"):uninitialized_destination; m->setEntity(id); m->setHomeNode(home); m->setLocFromNode(f); m->setAskNode(a); m->setHandler(77); auto h=vtc::any_in<int16_t>("hops",0,100); m->hops_=h; envelopeSetIsLocked(m->env,true); L->routedHandler(m.get()); check_route(m.get(),f,a,77); ENSURES("hop-counted", m->getHops()==h+1); }
static int acted; static void* acted_with;
CONTRACT(registered_handler) { any_state(); REQUIRES(reg); acted=0; L->local_registered_msg_han_.emplace(id,LocEntity<int>(id,[](BaseMessage* m){ acted++; acted_with=m; })); auto m=msg(); L->routeMsg(id,home,m); ENSURES("message-without-handler-goes-to-the-registered-one", (acted==1)&(acted_with==(void*)static_cast<BaseMessage*>(m.get()))&(nruns==0)&(nsent==0)); ENSURES("balanced", (depth==0)&!bad_pop&(balance(msg_ep)==0)); }
CONTRACT(local_element_shortcut) { any_state(); auto m=msg(); m->setEntity(id); m->setHomeNode(home); m->setLocFromNode(me); m->setHandler(77); L->routePreparedMsgHandler(m); if (reg) ENSURES("runs-once-here", (nruns==1) && (runs[0].msg==m.get())&(runs[0].han==77)&(runs[0].from==me)&runs[0].td&(nsent==0)); else check_route(m.get(),me,uninitialized_destination,77); }
CONTRACT(large_message) { any_state(); auto m=msg<Big>(); ENSURES("too-large-to-travel-along", !L->useEagerProtocol(m)); m->setHandler(77); L->routeMsg(id,home,m); ENSURES("balanced", (depth==0)&!bad_pop); ENSURES("epoch-held-throughout", !dips(msg_ep)); if (reg) ENSURES("runs-once-here", (nruns==1) && (runs[0].msg==m.get())&(runs[0].han==77)&(nsent==0)&(balance(msg_ep)==0)); else if (st==REMOTE) { REQUIRES(rn!=me); ENSURES("sent-once-to-where-it-is", (nruns==0)&(nsent==1) && sent_is(0,Routed,rn)&&(sent[0].msg==m.get())&&balance(msg_ep)==0); } else { ENSURES("kept-and-asked-for", (nruns==0)&(nsent==(int)(home!=me)) && (home==me||(sent_is(0,Request,home)&&(sent[0].a==home)&(sent[0].b==me))) && waiting(id)==1); ENSURES("epoch-held-meanwhile", balance(msg_ep)==1);
    auto n=node("answer"); REQUIRES(n!=me); nsent=0; L->updateLocation(id,n,home); ENSURES("sent-once-to-the-answer", (nruns==0)&(nsent==1) && sent_is(0,Routed,n)&&(sent[0].msg==m.get())); ENSURES("released", (waiting(id)==0)&(balance(msg_ep)==0)&(depth==0)&!bad_pop); ENSURES("epoch-held-throughout", !dips(msg_ep)); } }
CONTRACT(large_message_kept_until_registered) { any_state(false); REQUIRES(st==NONE); auto m=msg<Big>(); m->setHandler(77); L->routeMsg(id,home,m); ENSURES("kept", (nruns==0)&(waiting(id)==1)&(balance(msg_ep)==1)); nsent=0; L->registerEntity(id,home); ENSURES("runs-once-here", (nruns==1) && (runs[0].msg==m.get())&(runs[0].han==77)&(runs[0].ep==msg_ep)); ENSURES("released", (waiting(id)==0)&(balance(msg_ep)==0)&(depth==0)&!bad_pop); ENSURES("epoch-held-throughout", !dips(msg_ep)); }
// kept messages: delivered once, as soon as the element is registered here or its place is known
CONTRACT(kept_until_registered) { any_state(false); REQUIRES(st==NONE); home=me; auto m=msg(), k=msg(), o=msg(); m->setHandler(77); k->setHandler(78); o->setHandler(79); L->routeMsg(id,home,m); L->routeMsg(id,home,k); L->routeMsg(id2,home,o); ENSURES("kept", (nruns==0)&(nsent==0)&(waiting(id)==2)&(waiting(id2)==1)); bool here_=vtc::choose(2); auto n=node("place"); if (here_) L->registerEntity(id,home); else { REQUIRES(n!=me); L->updateLocation(id,n,home); }
  if (here_) ENSURES("each-runs-once-in-order", (nruns==2)&(nsent==0) && (runs[0].msg==m.get())&(runs[0].han==77)&(runs[1].msg==k.get())&(runs[1].han==78)&(runs[0].ep==msg_ep)&(runs[1].ep==msg_ep)); else ENSURES("each-is-sent-on-once-in-order", (nruns==0)&(nsent==2) && sent_is(0,Routed,n)&&sent_is(1,Routed,n)&&(sent[0].msg==m.get())&(sent[1].msg==k.get())); ENSURES("released", balance(msg_ep)==1); ENSURES("none-left", waiting(id)==0); ENSURES("others-still-kept", waiting(id2)==1); ENSURES("balanced", (depth==0)&!bad_pop); ENSURES("record-right", rec_is(id,here_?LOCAL:REMOTE,here_?me:n)); }
// an element appears
CONTRACT(register_) { any_state(false); static NodeType got[4]; static int ngot; ngot=0; for (int k=0;k<2;k++) L->insertPendingEntityAction(id,[](NodeType n){ got[ngot++]=n; }); L->insertPendingEntityAction(id2,[](NodeType){ ngot+=100; }); bool mig=vtc::choose(2), act=vtc::choose(2); LocMsgActionType f=nullptr; if (act) f=[](BaseMessage*){}; if (mig) L->entityImmigrated(id,home,node("came from"),f); else L->registerEntity(id,home,f);
  ENSURES("registered-here", L->local_registered_.count(id)==1); ENSURES("record-says-here", rec_is(id,LOCAL,me)); ENSURES("home-is-told-unless-it-is-here", (nsent==(int)(home!=me)) && (home==me||(sent_is(0,Update,home)&&(sent[0].a==me)&(sent[0].b==home)&sent[0].loc))); ENSURES("each-question-answered-once", (ngot==2) && (got[0]==me)&(got[1]==me)); ENSURES("none-left", (waiting(id)==0)&(waiting(id2)==1)); ENSURES("handler-kept-iff-given", L->local_registered_msg_han_.count(id)==(std::size_t)act); ENSURES("others-untouched", (L->local_registered_.count(id2)==0)&&rec_is(id2,NONE,0)); }
CONTRACT(register_again_refused) { any_state(); REQUIRES(reg); bool r=vtc::choose(2); if (r) REQUIRES(home==me); vtc_expect_abort(1); if (r) L->registerEntityRemote(id,home,node("made at")); else L->registerEntity(id,home); ENSURES("refused", false); }
CONTRACT(register_remote) { any_state(false); REQUIRES(home==me); auto n=node("made at"); L->registerEntityRemote(id,home,n); ENSURES("record-says-there", rec_is(id,REMOTE,n)); ENSURES("not-here", (L->local_registered_.count(id)==0)&(nsent==0)&(nruns==0)); }
CONTRACT(unregister) { any_state(); REQUIRES(reg); L->local_registered_.insert(id2); L->recs_.insert(id2,home,Rec{id2,eLocState::Local,me}); L->local_registered_msg_han_.emplace(id2,LocEntity<int>(id2,[](BaseMessage*){})); if (vtc::choose(2)) L->local_registered_msg_han_.emplace(id,LocEntity<int>(id,[](BaseMessage*){})); L->unregisterEntity(id); ENSURES("gone", (L->local_registered_.count(id)==0)&(L->local_registered_msg_han_.count(id)==0)&&rec_is(id,NONE,0)); ENSURES("others-stay", (L->local_registered_.count(id2)==1)&(L->local_registered_msg_han_.count(id2)==1)&&rec_is(id2,LOCAL,me)); ENSURES("nothing-sent", nsent==0); }
CONTRACT(unregister_unknown_refused) { any_state(false); vtc_expect_abort(1); L->unregisterEntity(id); ENSURES("refused", false); }
CONTRACT(moves_away) { any_state(); auto n=node("goes to"); L->entityEmigrated(id,n); ENSURES("not-here", L->local_registered_.count(id)==0); ENSURES("record-says-there", rec_is(id,REMOTE,n)); auto m=msg(); REQUIRES(n!=me); L->routeMsg(id,home,m); ENSURES("messages-follow-it", (nruns==0)&(nsent==1) && sent_is(0,Routed,n)); L->entityImmigrated(id,home,n); ENSURES("back-here", (L->local_registered_.count(id)==1)&&rec_is(id,LOCAL,me)); }
// questions
static NodeType answer; static int answers;
CONTRACT(question) { any_state(); answers=0; L->getLocation(id,home,[](NodeType n){ answers++; answer=n; }); if (reg) ENSURES("it-is-here", (answers==1)&(answer==me)&(nsent==0)&&rec_is(id,LOCAL,me)); else if (st==REMOTE) ENSURES("where-recorded", (answers==1)&(answer==rn)&(nsent==0)); else { ENSURES("kept-and-asked-at-home", (answers==0)&(waiting(id)==1)&(nsent==(int)(home!=me)) && (home==me||(sent_is(0,Request,home)&&(sent[0].a==home)&(sent[0].b==me)))); auto n=node("answer"); L->updateLocation(id,n,home); ENSURES("answered-once", (answers==1)&(answer==n)&(waiting(id)==0)); ENSURES("recorded", rec_is(id,REMOTE,n)); } }
CONTRACT(question_from_away) { any_state(); REQUIRES(home==me); auto a=node("asks"); L->getLocationRequest(id,home,Cb<int>{a}); bool known=reg|(st==REMOTE); NodeType n=reg?me:rn; ENSURES("answered-if-known", (nsent==(int)known) && (!known || (sent_is(0,Update,a)&&(sent[0].a==n)&(sent[0].b==home)&sent[0].loc))); ENSURES("kept-if-not", waiting(id)==(std::size_t)!known); if (!known) { L->registerEntity(id,home); ENSURES("answered-once-when-known", (nsent==1) && sent_is(0,Update,a)&&(sent[0].a==me)); } }
// word of where it was delivered
CONTRACT(told_where) { any_state(); auto d=node("delivered at"); REQUIRES(d!=me); NodeType a[2]={node("asked first"),node("asked second")}; int n=vtc::choose(3); if (n==2) REQUIRES(a[0]!=a[1]); for (int k=0;k<n;k++) L->loc_asks_[id].insert(a[k]); L->loc_asks_[id2].insert(a[0]); L->handleEagerUpdate(id,home,d); int want=0; for (int k=0;k<n;k++) { if ((a[k]==me)|(a[k]==d)) continue; want++; int got=0; for (int j=0;j<nsent;j++) got+=(sent_is(j,Eager,a[k])&&(sent[j].a==home)&(sent[j].b==d)); ENSURES("whoever-asked-is-told-once", got==1); } ENSURES("nobody-else-is-told", nsent==want); ENSURES("nobody-left-to-tell", L->loc_asks_.find(id)==L->loc_asks_.end()); ENSURES("recorded", rec_is(id,REMOTE,d)); ENSURES("others-still-to-be-told", L->loc_asks_.find(id2)!=L->loc_asks_.end()); }
CONTRACT(forgetting_the_cache) { any_state(); L->clearCache(); ENSURES("home-still-knows", rec_is(id,home==me?st:NONE,home!=me?0:(st==LOCAL?me:rn))); ENSURES("cached-iff-recorded", L->isCached(id)==((home==me)&(st!=NONE))); auto m=msg(); m->setHandler(77); if (home!=me) st=NONE; L->routeMsg(id,home,m); check_route(m.get(),me,uninitialized_destination,77); }
// the cache itself: bounded, least recently used goes first
using Cache=LocationCache<int,int>;
CONTRACT(cache) { clean(); Cache c(3); int k[4], v[4]; int n=vtc::choose(4); for (int j=0;j<4;j++) { k[j]=vtc::any<int>("key"); v[j]=vtc::any<int>("value"); for (int i=0;i<j;i++) REQUIRES(k[i]!=k[j]); } for (int j=0;j<n;j++) c.insert(k[j],v[j]); int use=-1; if (n>0 && vtc::choose(2)) { use=vtc::choose(n); if (vtc::choose(2)) ENSURES("finds-it", c.get(k[use])==v[use]); else { v[use]=vtc::any<int>("new value"); c.insert(k[use],v[use]); } } for (int j=0;j<n;j++) ENSURES("all-fit", c.exists(k[j])); ENSURES("not-there-before", !c.exists(k[3])); c.insert(k[3],v[3]); int out=n<3?-1:(use==0?1:0); for (int j=0;j<4;j++) { bool in=(j==3)||(j<n&&j!=out); ENSURES("oldest-goes-when-full", c.exists(k[j])==in); } for (int j=0;j<4;j++) if ((j==3)||(j<n&&j!=out)) ENSURES("finds-it", c.get(k[j])==v[j]); ENSURES("as-many-as-fit", (c.lookup_.size()==c.cache_.size())&(c.cache_.size()<=3)); }
CONTRACT(cache_remove) { clean(); Cache c(3); int k[3]; int n=1+vtc::choose(3), r=vtc::choose(4); for (int j=0;j<3;j++) { k[j]=vtc::any<int>("key"); for (int i=0;i<j;i++) REQUIRES(k[i]!=k[j]); } for (int j=0;j<n;j++) c.insert(k[j],j); int x=r<3?k[r]:vtc::any<int>("other key"); if (r==3) for (int j=0;j<3;j++) REQUIRES(x!=k[j]); c.remove(x); for (int j=0;j<n;j++) { ENSURES("that-one-only", c.exists(k[j])==(j!=r)); if (j!=r) ENSURES("finds-it", c.get(k[j])==j); } ENSURES("both-in-step", c.lookup_.size()==c.cache_.size()); }
CONTRACT(cache_unknown_refused) { clean(); Cache c(3); int a=vtc::any<int>("key"), b=vtc::any<int>("other key"); REQUIRES(a!=b); c.insert(a,1); vtc_expect_abort(1); c.get(b); ENSURES("refused", false); }
// several nodes together: whatever order things happen in, every message runs once, where the element is
static Loc* at[3]; static int there, said;
static void go(int n) { vtc_ctx->thisNode_=n; L=at[n]; }
static void say(int from) { go(from); auto m=makeMessage<TMsg>(); vt::messageRef(m.get()); m->setHandler(70+said); said++; L->routeMsg(id,home,m); }
static void arrive(int k) { auto s=sent[k]; sent[k].gone=true; go(s.to); if (s.kind==Update) L->updateLocation(id,s.a,s.b); else if (s.kind==Request) L->getLocationRequest(id,s.a,Cb<int>{s.b}); else if (s.kind==Eager) L->handleEagerUpdate(id,s.a,s.b); else { auto* m=static_cast<TMsg*>(s.msg); envelopeSetIsLocked(m->env,true); L->routedHandler(m); } }
static int flying() { int n=0; for (int k=0;k<nsent;k++) n+=!sent[k].gone; return n; }
static void arrive_nth(int j) { for (int k=0;k<nsent;k++) if (!sent[k].gone && j--==0) { arrive(k); return; } }
static void ran(void* m) { int me_=vtc_ctx->thisNode_; ENSURES("runs-where-the-element-is", me_==there); (void)m; }
static void nodes(int n) { clean(); id=5; home=0; msg_ep=9; said=0; there=-1; on_run=ran; for (int k=0;k<n;k++) at[k]=fresh(k); }
static void finished(int n) { ENSURES("each-message-ran", nruns==said); for (int k=0;k<said;k++) { int c=0; for (int r=0;r<nruns;r++) c+=runs[r].han==70+k; ENSURES("exactly-once", c==1); } ENSURES("epochs-balanced", (balance(msg_ep)==0)&(depth==0)&!bad_pop); for (int k=0;k<n;k++) { go(k); ENSURES("nothing-left-waiting", waiting(id)==0); if (k==there||k==home) ENSURES("known-where-it-is-and-at-home", rec_is(id,k==there?LOCAL:REMOTE,there)); } }
static void drain() { int f; while ((f=flying())>0) { ENSURES("comes-to-rest", nsent<40); arrive_nth(vtc::choose(f)); } }
CONTRACT(several_nodes_creation) { nodes(3); int who=vtc::choose(2), left=2; bool made=false; while (true) { int f=flying(); int n=f+(left>0)*3+!made; if (n==0) break; ENSURES("comes-to-rest", nsent<40); int c=vtc::choose(n); if (c<f) { arrive_nth(c); continue; } c-=f; if (left>0) { if (c<3) { left--; say(c); continue; } } made=true; there=who; go(who); L->registerEntity(id,home); } finished(3); }
CONTRACT(several_nodes_migration) { nodes(3); int from=vtc::choose(3), to=(from+1+vtc::choose(2))%3; there=from; go(from); L->registerEntity(id,home); drain(); say(vtc::choose(3)); drain(); finished(3); go(from); there=-1; L->entityEmigrated(id,to); int left=1; bool in=false; while (true) { int f=flying(); int n=f+(left>0)*3+!in; if (n==0) break; ENSURES("comes-to-rest", nsent<40); int c=vtc::choose(n); if (c<f) { arrive_nth(c); if (!in && nsent>11) REQUIRES(false); continue; } c-=f; if (left>0) { if (c<3) { left--; say(c); continue; } } in=true; there=to; go(to); L->entityImmigrated(id,home,from); } finished(3); }
