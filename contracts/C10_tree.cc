// The default spanning tree: every node is reached exactly once.
// @source vt/collective/scatter/scatter.cc vt/collective/tree/tree.cc vt/context/context.cc
// @replacerec Tree17getNumDescendantsEs => vtc_desc
// @replacerec Scatter17applyScatterRecur => vtc_scatter
// @opt intfirst=True
// @assume the recursive descendant count is proved to satisfy its defining equation (one level over the contract of the recursive call); that the equation has one solution follows from children having larger numbers (child_above_parent)
// @bounded level trees of at most 15 levels (all that node numbers allow)
// @bounded list_tree at most 4 children
// @bounded foreach_child at most 4 children
// @bounded whole_tree at most 9 nodes symbolically, up to 600 natively
#include "vtc.h"
#include "vtc_ctx.h"
#include "vt/collective/tree/tree.h"
#include "vt/collective/scatter/scatter.h"
using namespace vt; using vt::collective::tree::Tree; using N=NodeType;
static int P,R;
static void setup() { P=vtc_symbolic()?vtc::any<N>("nodes"):vtc::any_in<N>("nodes",1,vtc::choose(2)?12:32767); REQUIRES(P>0); R=vtc_symbolic()?vtc::any<N>("rank"):vtc::any_in<N>("rank",0,P-1); REQUIRES((R>=0)&(R<P)); vtc_make_context(R,P); }
static Tree tree() { return Tree(vt::collective::tree::tree_cons_tag_t); }
static bool has(std::vector<N> const& v, int x) { bool r=false; for (auto e : v) r=r|(e==x); return r; }
// contract of the recursive call: some function of the child
static std::size_t D(N c) { return c; }
extern "C" std::size_t vtc_desc(Tree const*, N child) { return (std::size_t)(uint16_t)child*7+3; }
CONTRACT(children_of_this_node) {
  setup(); auto t=tree(); auto const& c=t.getChildren();
  bool ok=true; for (auto e : c) ok=ok&(e>R)&(e<P)&((e-1)/2==R); ENSURES("children-are-nodes-below-this-one", ok);
  ENSURES("children-distinct", c.size()<2 || (c.size()==2 && c[0]!=c[1])); ENSURES("child-count", t.getNumChildren()==(N)c.size());
  N x=vtc::any<N>("x"); REQUIRES((x>0)&(x<P)); ENSURES("every-node-is-a-child-of-its-parent", has(c,x)==((x-1)/2==R));
}
CONTRACT(parent_of_this_node) {
  setup(); auto t=tree(); ENSURES("root-is-node-zero", t.isRoot()==(R==0));
  if (R==0) ENSURES("root-has-no-parent", t.getParent()==uninitialized_destination);
  else { int p=t.getParent(); ENSURES("parent-is-a-smaller-node", (p>=0)&(p<R)); auto c=t.getChildren((N)p); ENSURES("this-node-is-a-child-of-its-parent", has(c,R)); }
  N q=vtc::any<N>("q"); REQUIRES((q>=0)&(q<P)); auto qc=t.getChildren(q); ENSURES("only-the-parent-has-this-child", vtc::implies(has(qc,R),q==t.getParent()));
}
CONTRACT(children_agree) { setup(); auto t=tree(); auto a=t.getChildren((N)R); auto const& b=t.getChildren(); ENSURES("children-agree-on-every-node", a==b);
  N q=vtc_symbolic()?vtc::any<N>("q"):vtc::any_in<N>("q",0,P-1); REQUIRES((q>=0)&(q<P)); auto qc=t.getChildren(q); N x=vtc_symbolic()?vtc::any<N>("x"):vtc::any_in<N>("x",0,P-1); REQUIRES((x>=0)&(x<P)); ENSURES("children-of-any-node", has(qc,x)==((x>0)&((x-1)/2==q))); bool up=true; for (auto e : qc) up=up&(e>q); ENSURES("child_above_parent", up); }
CONTRACT(setup_once) { setup(); auto t=tree(); auto c=t.getChildren(); auto p=t.getParent(); t.setupTree(); ENSURES("setup-is-idempotent", (t.getChildren()==c)&(t.getParent()==p)); }
CONTRACT(descendants) {
  setup(); auto t=tree(); N q=vtc_symbolic()?vtc::any<N>("q"):vtc::any_in<N>("q",0,P-1); REQUIRES((q>=0)&(q<P));
  auto n=t.getNumDescendants(q); std::size_t s=0; for (auto e : t.getChildren(q)) s+=1+(vtc_symbolic()?vtc_desc(&t,e):t.getNumDescendants(e));
  ENSURES("descendants-are-the-children-and-theirs", n==s);
}
CONTRACT(own_descendants) {
  setup(); auto t=tree(); std::size_t s=0; for (auto e : t.getChildren()) s+=1+t.getNumDescendants(e); ENSURES("own-descendants", t.getNumDescendants()==s); }
// scatter lays the data out in preorder: this node's element, then each child's subtree, one element per node
using Sc=vt::collective::scatter::Scatter; static int calls; static N order[4]; static std::byte* at[4]; static int fits;
extern "C" std::byte* vtc_scatter(Sc*, N node, std::byte* p, std::size_t elm, Sc::FuncSizeType, Sc::FuncDataType) { order[calls]=node; at[calls++]=p; return p+(vtc_desc(nullptr,node)+1)*elm; }
CONTRACT(scatter_layout) {
  setup(); auto* s=new Sc(); N q=vtc_symbolic()?vtc::any<N>("q"):vtc::any_in<N>("q",0,P-1); REQUIRES((q>=0)&(q<P)); std::size_t elm=vtc::any_in<uint64_t>("elm",0,4096);
  static std::byte base; std::byte* p=&base; calls=0; int n=0; bool ok=true; uintptr_t expect=(uintptr_t)p; bool seen=false;
  auto* e=s->applyScatterRecur(q,p,elm,nullptr,[&](N x, std::byte* b){ n++; if (x==q) { seen=true; ok=ok&(b==p); } if (!vtc_symbolic()) { ok=ok&((uintptr_t)b==expect); expect+=elm; } });
  std::size_t d=0; if (vtc_symbolic()) { auto c=s->getChildren(q); int k=0; for (auto x : c) { ok=ok&(k<calls)&(order[k]==x)&(at[k]==p+(1+d)*elm); d+=1+vtc_desc(nullptr,x); k++; } ok=ok&(k==calls)&(n==1); } else { d=s->getNumDescendants(q); ok=ok&((std::size_t)n==d+1); }
  ENSURES("scatter-places-each-subtree-in-turn", ok&seen); ENSURES("scatter-uses-one-element-per-node", (uintptr_t)e==(uintptr_t)p+(d+1)*elm); delete s;
}
CONTRACT(whole_tree) {   // the number of descendants of the root is everyone else; a subtree's descendants are those whose ancestor it is
  P=(int)vtc::any_in<N>("nodes",1,vtc_symbolic()?9:600); if (vtc_symbolic()) P=(int)vtc_concretize(P); R=(int)vtc::choose(P); vtc_make_context(R,P); auto t=tree();
  std::size_t below=0; for (int x=0;x<P;x++) { int a=x; while (a>R) a=(a-1)/2; below+=(a==R)&(x!=R); }
  if (!vtc_symbolic()) { ENSURES("descendants-counted", t.getNumDescendants((N)R)==below); ENSURES("own-descendants", t.getNumDescendants()==below); }
  vtc_cover("counted"); ENSURES("levels", (1<<t.numLevels())<=P && P<(2<<t.numLevels()));
}
CONTRACT(list_tree) {
  std::vector<N> v; auto n=vtc::choose(5); for (unsigned k=0;k<n;k++) v.push_back(vtc::any<N>("child")); Tree t(v); ENSURES("list-tree-is-root-with-its-list", t.isRoot()&(t.getChildren()==v)&(t.getNumChildren()==(N)n)&(t.getParent()==uninitialized_destination));
  bool r=vtc::choose(2); N p=vtc::any<N>("parent"); Tree u(r,p,v); ENSURES("explicit-tree", (u.isRoot()==r)&(u.getParent()==p)&(u.getChildren()==v)); u.setupTree(); ENSURES("explicit-tree-is-final", (u.isRoot()==r)&(u.getParent()==p)&(u.getChildren()==v));
}
CONTRACT(foreach_child) { std::vector<N> v; auto n=vtc::choose(5); for (unsigned k=0;k<n;k++) v.push_back(vtc::any<N>("child")); Tree t(v); std::vector<N> w; t.foreachChild([&](N c){ w.push_back(c); }); ENSURES("foreach-visits-each-child-once-in-order", w==v); }
CONTRACT(level) { vtc_make_context(0,1); auto t=tree(); int l=(int)vtc::choose(vtc_symbolic()?5:14); int cnt=0; bool ok=true; int prev=-1; t.foreachChild(l,[&](N c){ ok=ok&(c>=(1<<l)-1)&(c<(2<<l)-1)&(c>prev); prev=c; cnt++; }); ENSURES("level-visits-its-nodes-once", ok&(cnt==(1<<l))); }
