// Reductions: when a node's part is complete, what it combines, where the result goes.
// @pre reduce/pre.h
// @source vt/pipe/signal/signal_holder.cc vt/collective/reduce/reduce.cc vt/collective/reduce/reduce_manager.cc vt/collective/reduce/reduce_state_holder.cc vt/collective/tree/tree.cc vt/context/context.cc vt/epoch/epoch_manip.cc
// @symsource @vtc/abs/std/string_inst.cc
// @opt stl_model=True
// @bounded leaf_contributions three messages
// @bounded one_child two messages
// @bounded two_children three messages
// @bounded child_and_contributions three messages
// @bounded children_and_contributions four messages
// @bounded three_children four messages
// @bounded children_and_more_contributions five messages
#include "vtc.h"
#include "vtc_ctx.h"
#include "vt/collective/reduce/reduce.h"
#include "vt/collective/reduce/reduce.impl.h"
#include "vt/collective/reduce/reduce_manager.impl.h"
#include "vt/collective/reduce/operators/default_op.impl.h"
#include "vt/pool/pool.h"
#include <cstdlib>
namespace vtc_env { alignas(64) inline unsigned char pool[sizeof(vt::pool::Pool)]; }
namespace vt { pool::Pool* thePool() { return reinterpret_cast<pool::Pool*>(vtc_env::pool); }
namespace pool { std::byte* Pool::alloc(size_t const& n, size_t o) { return static_cast<std::byte*>(std::malloc(n+o)); } void Pool::dealloc(std::byte* p) { std::free(p); } } }
using namespace vtc_env; using namespace vt; using namespace vt::collective::reduce; namespace op=vt::collective::reduce::operators; namespace rd=vt::collective::reduce::detail;
using Data=std::tuple<uint64_t>; using RMsg=op::ReduceTMsg<Data>; using Sum=op::PlusOp<Data>; static constexpr auto H=&RMsg::msgHandler<RMsg,Sum,op::NoCombine>;
static NodeType anyNode(const char* n) { return vtc_symbolic()?vtc::any_in<NodeType>(n,0,32766):vtc::any_in<NodeType>(n,0,3); }
static NodeType me;
static void init() { vtc_make_context(0,1); nsent=nruns=nhans=nsetup=0; me=anyNode("this node"); vtc_ctx->thisNode_=me; }
// a node at any place of any tree, with the given number of children
static Reduce& node(rd::ReduceScope const& s, bool root, NodeType kids) {
  collective::tree::Tree t(root,root?uninitialized_destination:anyNode("parent"),{}); auto* r=new Reduce(s,&t);
  auto& v=r->children_._M_impl; auto* p=static_cast<NodeType*>(std::malloc(sizeof(NodeType)*(kids+1))); v._M_start=p; v._M_finish=v._M_end_of_storage=p+kids; return *r; }
static rd::ReduceScope userScope(uint64_t id=7) { return rd::makeScope<rd::StrongUserID>(id); }
static ReduceStamp stampOf(int kind, const char* n) { auto v=vtc::any<uint64_t>(n);
  if (kind==0) return makeStamp<rd::StrongTag>((TagType)v); if (kind==1) return makeStamp<TagPair>((TagType)v,(TagType)vtc::any<TagType>(n)); if (kind==2) return makeStamp<rd::StrongSeq>((SequentialIDType)v); if (kind==3) return makeStamp<StrongUserID>(v); return makeStamp<StrongEpoch>(v); }
static RMsg* msgOf(Reduce& r, ReduceStamp const& s, uint64_t v, NodeType root) { auto p=makeMessage<RMsg>(Data{v}); auto* m=p.get(); messageRef(m); m->reduce_id_=rd::ReduceIDImpl{s,r.scope_}; m->combine_handler_=reg<RMsg>(H,[](void* p){ H(static_cast<RMsg*>(p)); }); m->reduce_root_=root; return m; }
static uint64_t val(void* m) { return std::get<0>(static_cast<RMsg*>(m)->getVal()); }
// nothing happens before every child and every local contribution has arrived, however many there are
CONTRACT(waits_for_all) {
  init(); bool root=vtc::choose(2); auto kids=vtc_symbolic()?vtc::any_in<NodeType>("children",0,32766):vtc::any_in<NodeType>("children",0,4); auto& r=node(userScope(),root,kids); auto st=stampOf(3,"stamp");
  auto have=vtc_symbolic()?vtc::any_in<int32_t>("messages here",0,100000):vtc::any_in<int32_t>("messages here",0,4); auto contrib=vtc_symbolic()?vtc::any_in<int32_t>("contributions",1,100000):vtc::any_in<int32_t>("contributions",1,4);
  r.state_.insert(st,ReduceState{contrib}); auto& s=r.state_.find(st); s.msgs.reserve(1); { auto& v=s.msgs._M_impl; auto n=sizeof(MsgSharedPtr<ReduceMsg>); auto* p=static_cast<MsgSharedPtr<ReduceMsg>*>(std::malloc(n*(have+1))); v._M_start=p; v._M_finish=p+have; v._M_end_of_storage=p+have+1; }
  REQUIRES(have+1!=kids+contrib); auto* m=msgOf(r,st,vtc::any<uint64_t>("value"),anyNode("root")); bool local=vtc::choose(2);
  if (local) { auto id=r.reduceImmediate<RMsg,H>(m->reduce_root_,m,st,contrib); ENSURES("stamp-as-asked", id==st); } else r.reduceUpHan<RMsg>(m);
  ENSURES("nothing-sent-or-run-before-all-arrived", (nsent==0)&(nruns==0)); ENSURES("message-kept-last", (s.msgs.size()==(std::size_t)have+1) && (s.msgs[have].get()==m)); ENSURES("state-kept", r.state_.exists(st)); ENSURES("contributions-expected", s.num_contrib_==contrib);
}
// a complete reduction at one node: any interleaving of its children's messages and its own contributions
struct Cfg { Reduce* r; ReduceStamp st; NodeType root; bool isRoot; int kids, contrib; };
static void finish(Cfg& c, uint64_t want, std::size_t total, void* first) {
  auto toSelf=c.root==me; ENSURES("one-message-leaves", nsent==((c.isRoot & toSelf)?0:1)); ENSURES("state-erased", !c.r->state_.exists(c.st)); bool comb=total>1; ENSURES("combined-once", nruns==(int)comb+(int)(c.isRoot & toSelf)); if (comb) ENSURES("combining-runs-in-the-epoch", runs[0].td);
  if (nsent) { ENSURES("everything-is-combined", val(sent[0].msg)==want); if (c.isRoot) ENSURES("result-goes-to-the-reduction-root", (sent[0].dest==c.root)&(sent[0].han==(void*)&ReduceManager::reduceRootRecv<RMsg>)); else ENSURES("partial-result-goes-to-the-parent", (sent[0].dest==c.r->getParent())&(sent[0].han==(void*)&ReduceManager::reduceUpHan<RMsg>)); 
    auto* m=static_cast<RMsg*>(sent[0].msg); ENSURES("instance-travels-with-the-message", (m->stamp()==c.st) && (m->scope()==c.r->scope_)); ENSURES("root-travels-with-the-message", (m->reduce_root_==c.root)&(m->combine_handler_==1)); }
  else { ENSURES("delivered-here", (val(runs[comb].msg)==want)&(runs[comb].han==1)&runs[comb].td&(nsetup==1)); ENSURES("marked-as-result", static_cast<RMsg*>(runs[comb].msg)->isRoot()); }
}
static void whole(int kids, int contrib) {
  init(); Cfg c; c.isRoot=vtc::choose(2); c.kids=kids; c.contrib=contrib; c.r=&node(userScope(),c.isRoot,kids); c.st=stampOf(0,"tag"); c.root=anyNode("reduction root"); REQUIRES(c.st!=ReduceStamp{});
  uint64_t want=0; int up=0, loc=0; void* first=nullptr;
  for (int k=0;k<kids+contrib && k<5;k++) { auto v=vtc::any<uint64_t>("value"); want+=v; ENSURES("nothing-sent-or-run-before-all-arrived", (nsent==0)&(nruns==0)); bool l=up==kids || (loc<contrib && vtc::choose(2)); auto* m=msgOf(*c.r,c.st,v,c.root); if (!first) first=m;
    if (l) { m->reduce_root_=uninitialized_destination; m->combine_handler_=0; auto id=c.r->reduceImmediate<RMsg,H>(c.root,m,c.st,contrib); ENSURES("stamp-as-asked", id==c.st); loc++; } else { c.r->reduceUpHan<RMsg>(m); up++; } }
  finish(c,want,kids+contrib,first);
}
CONTRACT(leaf) { whole(0,1); } CONTRACT(leaf_contributions) { whole(0,3); } CONTRACT(one_child) { whole(1,1); } CONTRACT(two_children) { whole(2,1); } CONTRACT(child_and_contributions) { whole(1,2); } CONTRACT(children_and_contributions) { whole(2,2); }
CONTRACT(three_children) { whole(3,1); } CONTRACT(children_and_more_contributions) { whole(2,3); }
// two reductions of one scope in flight at the same node do not mix, whatever the order their messages come in
CONTRACT(stamps_do_not_mix) {
  init(); bool isRoot=vtc::choose(2); auto& r=node(userScope(),isRoot,1); int ka=vtc::choose(5), kb=vtc::choose(5); auto a=stampOf(ka,"a"), b=stampOf(kb,"b"); REQUIRES((a!=b) && (a!=ReduceStamp{}) && (b!=ReduceStamp{})); auto root=anyNode("reduction root"); REQUIRES(root!=me);
  auto a1=vtc::any<uint64_t>("a value"), a2=vtc::any<uint64_t>("a value"), b1=vtc::any<uint64_t>("b value"), b2=vtc::any<uint64_t>("b value");
  r.reduceUpHan<RMsg>(msgOf(r,a,a1,root)); bool swap=vtc::choose(2); if (swap) r.reduceUpHan<RMsg>(msgOf(r,b,b1,root)); else r.reduceImmediate<RMsg,H>(root,msgOf(r,b,b1,root),b); ENSURES("neither-complete", nsent==0);
  r.reduceImmediate<RMsg,H>(root,msgOf(r,a,a2,root),a); ENSURES("first-complete", (nsent==1) && (val(sent[0].msg)==a1+a2) && (static_cast<RMsg*>(sent[0].msg)->stamp()==a)); ENSURES("second-kept", !r.state_.exists(a) & r.state_.exists(b));
  if (swap) r.reduceImmediate<RMsg,H>(root,msgOf(r,b,b2,root),b); else r.reduceUpHan<RMsg>(msgOf(r,b,b2,root)); ENSURES("second-complete", (nsent==2) && (val(sent[1].msg)==b1+b2) && (static_cast<RMsg*>(sent[1].msg)->stamp()==b)); ENSURES("none-left", !r.state_.exists(b));
}
// reductions without an explicit stamp get one of their own, the same on every node that starts the same number of them
CONTRACT(stamps_are_fresh) {
  init(); auto& r=node(userScope(),true,0); auto seq=vtc::any<SequentialIDType>("reductions so far"); REQUIRES(seq<~SequentialIDType{0}-1); r.next_seq_=rd::StrongSeq{seq}; auto a=r.generateNextID(), b=r.generateNextID(); ENSURES("distinct", a!=b); ENSURES("in-step", (a==makeStamp<rd::StrongSeq>(seq+1)) && (b==makeStamp<rd::StrongSeq>(seq+2)));
  ENSURES("not-a-user-stamp", (a!=makeStamp<rd::StrongTag>((TagType)(seq+1))) && (a!=makeStamp<StrongUserID>(seq+1)) && (a!=makeStamp<StrongEpoch>(seq+1)));
}
CONTRACT(unstamped_reductions) {
  init(); auto& r=node(userScope(),false,0); auto root=anyNode("reduction root"); auto a=r.reduceImmediate<RMsg,H>(root,msgOf(r,ReduceStamp{},1,root)), b=r.reduceImmediate<RMsg,H>(root,msgOf(r,ReduceStamp{},2,root)); auto& s=node(userScope(),false,0); auto c=s.reduceImmediate<RMsg,H>(root,msgOf(s,ReduceStamp{},1,root));
  ENSURES("own-stamp-each", (a!=b) && (a!=ReduceStamp{}) && (b!=ReduceStamp{})); ENSURES("same-on-every-node", a==c); ENSURES("stamps-travel", (static_cast<RMsg*>(sent[0].msg)->stamp()==a) && (static_cast<RMsg*>(sent[1].msg)->stamp()==b)); }
CONTRACT(stamp_equality) {
  int ka=vtc::choose(5), kb=vtc::choose(5); auto x=vtc::any<uint64_t>("x"), y=vtc::any<uint64_t>("y"); auto p=vtc::any<TagType>("p"), q=vtc::any<TagType>("q");
  auto mk=[](int k,uint64_t v,TagType w){ if (k==0) return makeStamp<rd::StrongTag>((TagType)v); if (k==1) return makeStamp<TagPair>((TagType)v,w); if (k==2) return makeStamp<rd::StrongSeq>((SequentialIDType)v); if (k==3) return makeStamp<StrongUserID>(v); return makeStamp<StrongEpoch>(v); };
  auto a=mk(ka,x,p), b=mk(kb,y,q); bool same=(ka==kb) && (ka==0 ? (TagType)x==(TagType)y : ka==1 ? ((TagType)x==(TagType)y) & (p==q) : ka==2 ? (SequentialIDType)x==(SequentialIDType)y : x==y); ENSURES("equal-iff-same-kind-and-value", (a==b)==same);
  if (ka==1 && kb==1) ENSURES("hash-respects-equality", vtc::implies(same,std::hash<TagPair>()(std::get<TagPair>(a))==std::hash<TagPair>()(std::get<TagPair>(b)))); }
// the result is handed over once: to the handler given for it, else to the operator given for it
static int nres=0; static void* res=nullptr; static uint64_t resv=0; static void result(RMsg* m) { nres++; res=m; resv=val(m); } struct Act { void operator()(RMsg* m) { nres+=10; res=m; resv=val(m); } };
CONTRACT(result_delivered_once) {
  init(); nres=0; auto& r=node(userScope(),true,0); auto v=vtc::any<uint64_t>("value"); bool byHandler=vtc::choose(2); auto* m=msgOf(r,stampOf(0,"tag"),v,me); constexpr auto A=&RMsg::msgHandler<RMsg,Sum,Act>; m->combine_handler_=reg<RMsg>(A,[](void* p){ A(static_cast<RMsg*>(p)); }); if (byHandler) m->root_handler_=reg<RMsg>(&result,[](void* p){ result(static_cast<RMsg*>(p)); });
  m->next_=m; m->count_=vtc::any<uint16_t>("count"); m->is_root_=false; r.reduceRootRecv<RMsg>(m); ENSURES("delivered-once", nres==(byHandler?1:10)); ENSURES("the-message-it-was-sent", (res==m)&(resv==v)); ENSURES("result-untouched", val(m)==v); ENSURES("links-reset", (m->next_==nullptr)&(m->count_==1)&m->isRoot()); ENSURES("in-the-epoch-of-the-message", (nruns==1)&runs[0].td); }
// delivering a result may start the next reduction with the same stamp
static Reduce* again=nullptr; static ReduceStamp ast; static int deliveries=0; struct Again { void operator()(RMsg* m); }; static constexpr auto AH=&RMsg::msgHandler<RMsg,Sum,Again>;
void Again::operator()(RMsg* m) { resv=val(m); if (deliveries++==0) { auto* n=msgOf(*again,ast,vtc::any<uint64_t>("second"),me); again->reduceImmediate<RMsg,AH>(me,n,ast,2); ENSURES("new-reduction-waits", deliveries==1); } }
CONTRACT(delivery_may_reduce_again) {
  init(); deliveries=0; auto& r=node(userScope(),true,0); again=&r; ast=stampOf(0,"tag"); REQUIRES(ast!=ReduceStamp{}); auto v=vtc::any<uint64_t>("first"); r.reduceImmediate<RMsg,AH>(me,msgOf(r,ast,v,me),ast,1); ENSURES("one-delivery", (deliveries==1)&(resv==v)); ENSURES("second-in-flight", r.state_.exists(ast) && r.state_.find(ast).msgs.size()==1);
  auto w=vtc::any<uint64_t>("third"); auto s=val(r.state_.find(ast).msgs[0].get()); r.reduceImmediate<RMsg,AH>(me,msgOf(r,ast,w,me),ast,2); ENSURES("second-delivered", (deliveries==2)&(resv==s+w)); ENSURES("none-left", !r.state_.exists(ast)); }
// the group of a group reduction is written on its messages; a message of another scope is refused
CONTRACT(group_on_the_message) { init(); auto g=vtc::any<GroupType>("group"); auto& r=node(rd::makeScope<rd::StrongGroup>(g),false,0); auto root=anyNode("reduction root"); r.reduceImmediate<RMsg,H>(root,msgOf(r,ReduceStamp{},1,root)); ENSURES("group-set", (nsent==1) && envelopeGetGroup(static_cast<RMsg*>(sent[0].msg)->env)==g); }
CONTRACT(other_scope_refused) { init(); auto x=vtc::any<uint64_t>("scope"), y=vtc::any<uint64_t>("other"); REQUIRES(x!=y); auto& r=node(userScope(x),true,0); auto* m=msgOf(r,stampOf(0,"tag"),1,me); m->reduce_id_=rd::ReduceIDImpl{m->stamp(),userScope(y)}; vtc_expect_abort(1); r.reduceUpHan<RMsg>(m); ENSURES("refused", false); }
static rd::ReduceScope scopeOf(int k, uint64_t v) { if (k==0) return rd::makeScope<rd::StrongObjGroup>(v); if (k==1) return rd::makeScope<rd::StrongVrtProxy>(v); if (k==2) return rd::makeScope<rd::StrongGroup>(v); if (k==3) return rd::makeScope<rd::StrongCom>((ComponentIDType)v); return rd::makeScope<rd::StrongUserID>(v); }
CONTRACT(scope_equality) { int ka=vtc::choose(5), kb=vtc::choose(5); auto x=vtc::any<uint64_t>("x"), y=vtc::any<uint64_t>("y"); auto a=scopeOf(ka,x), b=scopeOf(kb,y); bool same=(ka==kb) && (ka==3 ? (ComponentIDType)x==(ComponentIDType)y : x==y); ENSURES("equal-iff-same-kind-and-value", (a==b)==same); ENSURES("unequal", (a!=b)==!same);
  ReduceStamp s=makeStamp<StrongUserID>(x); rd::ReduceIDImpl i{s,a}, j{s,b}, k{makeStamp<StrongUserID>(y),a}; ENSURES("instances", ((i==j)==same) && ((i==k)==(x==y)) && ((i!=j)==!same)); }
// one reducer per scope, each with its own tree; groups must bring theirs
CONTRACT(one_reducer_per_scope) {
  init(); ReduceManager m; mgr=&m; int ka=vtc::choose(4), kb=vtc::choose(4); auto x=vtc::any<uint64_t>("x"), y=vtc::any<uint64_t>("y"); auto a=scopeOf(ka+(ka>1),x), b=scopeOf(kb+(kb>1),y); auto* p=m.getReducer(a); auto* q=m.getReducer(b); auto* g=m.global();
  ENSURES("same-reducer-iff-same-scope", (p==q)==(a==b)); ENSURES("scope-of-the-reducer", (p->scope_==a) && (q->scope_==b)); ENSURES("found-again", m.getReducer(a)==p); ENSURES("global-apart", (g!=p)&(g!=q)&(m.global()==g) && (g->scope_==rd::makeScope<rd::StrongGroup>(default_group)));
  auto* t=ka==0?m.getReducerObjGroup(x):ka==1?m.getReducerVrtProxy(x):ka==2?m.getReducerComponent((ComponentIDType)x):p; ENSURES("typed-access", t==p); }
CONTRACT(group_reducer_uses_its_tree) {
  init(); ReduceManager m; mgr=&m; auto g=vtc::any<GroupType>("group"); REQUIRES(g!=default_group); bool root=vtc::choose(2); auto parent=anyNode("parent"), c1=anyNode("child"), c2=anyNode("child"); collective::tree::Tree t(root,parent,{c1,c2}); m.makeReducerGroup(g,&t); auto* r=m.getReducerGroup(g);
  ENSURES("tree-of-the-group", (r->isRoot()==root)&(r->getParent()==parent)&(r->getNumChildren()==2) && (r->getChildren()[0]==c1)&(r->getChildren()[1]==c2)); ENSURES("by-scope", m.getReducer(rd::makeScope<rd::StrongGroup>(g))==r); ENSURES("not-the-global-one", m.global()!=r); }
CONTRACT(group_not_made_on_demand) { init(); ReduceManager m; auto g=vtc::any<GroupType>("group"); REQUIRES(g!=default_group); vtc_expect_abort(1); bool typed=vtc::choose(2); if (typed) m.getReducerGroup(g); else m.getReducer(rd::makeScope<rd::StrongGroup>(g)); ENSURES("refused", false); }
CONTRACT(collective_reducers_apart) { init(); ReduceManager m; auto* a=m.makeReducerCollective(); auto* b=m.makeReducerCollective(); ENSURES("fresh-scope-each", (a!=b)&(a!=m.global())&(b!=m.global()) && (a->scope_!=b->scope_)); }
CONTRACT(handlers_find_the_reducer) { init(); ReduceManager m; mgr=&m; auto x=vtc::any<uint64_t>("scope"); auto* r=m.getReducer(userScope(x)); auto root=anyNode("reduction root"); REQUIRES(root!=me); r->children_.push_back(NodeType{1}); r->is_root_=true; auto st=stampOf(0,"tag"); REQUIRES(st!=ReduceStamp{}); auto v=vtc::any<uint64_t>("v"), w=vtc::any<uint64_t>("w");
  ReduceManager::reduceUpHan<RMsg>(msgOf(*r,st,v,root)); ENSURES("kept-by-the-reducer-of-its-scope", r->state_.exists(st) && nsent==0); r->reduceImmediate<RMsg,H>(root,msgOf(*r,st,w,root),st); ENSURES("sent-to-the-root", (nsent==1) && (val(sent[0].msg)==v+w)&(sent[0].dest==root)); }
// parameters given to a reduction: all of them in order, the optional stamp last
CONTRACT(parameters_and_stamp) { init(); auto x=vtc::any<uint64_t>("x"); auto y=vtc::any<uint32_t>("y"); using M2=op::ReduceTMsg<std::tuple<uint64_t,uint32_t>>; bool with=vtc::choose(2); ReduceStamp s=stampOf(0,"tag");
  if (with) { auto [st,m]=GetReduceStamp<void,uint64_t&,uint32_t&,ReduceStamp&>::template getStampMsg<M2>(x,y,s); ENSURES("stamp-kept", st==s); ENSURES("values-in-order", (std::get<0>(m->getVal())==x)&(std::get<1>(m->getVal())==y)); }
  else { auto [st,m]=GetReduceStamp<void,uint64_t&,uint32_t&>::template getStampMsg<M2>(x,y); ENSURES("no-stamp", st==ReduceStamp{}); ENSURES("values-in-order", (std::get<0>(m->getVal())==x)&(std::get<1>(m->getVal())==y)); } }
