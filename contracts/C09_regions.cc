// Group regions describe a set of nodes; splitting, copying, and taking head/tail preserve that set.
// @source vt/group/region/group_region.cc vt/group/region/group_range.cc vt/group/region/group_list.cc vt/group/region/group_shallow_list.cc
// @assume ranges end at least one stride below the largest node number; a shallow list is sorted (it is only made from sorted regions)
// @bounded range_list ranges of at most 6 nodes
// @bounded range_list_contains ranges of at most 6 nodes
// @bounded list_contains lists of at most 5 nodes
// @bounded list_head_tail lists of at most 5 nodes
// @bounded list_tail_contains lists of at most 4 nodes
// @bounded list_split lists of at most 5 nodes
// @bounded list_splitN lists of at most 5 nodes, at most 4 parts
// @bounded list_copies lists of at most 4 nodes
// @bounded list_sort lists of at most 4 nodes
// @bounded shallow_contains lists of at most 5 nodes
// @bounded shallow_splitN lists of at most 5 nodes, at most 4 parts
// @bounded list_hash_respects_equality lists of at most 4 nodes
// @bounded range_splitN_more three parts, nodes below 20, strides up to 4
// @copt list_sort cost=5
// @copt range_splitN cost=5
// @copt range_splitN_more cost=9
// @copt range_splitN_more budget=100
// @copt range_splitN_more intfirst=False
// @opt intfirst=True
#include "vtc.h"
#include "vt/group/region/group_region.h"
#include "vt/group/region/group_range.h"
#include "vt/group/region/group_list.h"
#include "vt/group/region/group_shallow_list.h"
using namespace vt; using namespace vt::group::region; using N=NodeType;
static int lo,hi,st;
static Range anyRange() {
  if (vtc_symbolic()) { lo=vtc::any<N>("lo"); hi=vtc::any<N>("hi"); st=vtc::any<N>("stride"); }
  else if (vtc::choose(2)) { lo=vtc::any_in<N>("lo",0,9); hi=vtc::any_in<N>("hi",0,20); st=vtc::any_in<N>("stride",1,5); }
  else { lo=vtc::any_in<N>("lo",0,32000); hi=vtc::any_in<N>("hi",lo,32000); st=vtc::any_in<N>("stride",1,700); }
  REQUIRES((lo>=0)&(lo<=hi)&(st>=1)&(hi<=32767-st));
  return Range((N)lo,(N)hi,(N)st);
}
static bool in(int x) { return (x>=lo)&(x<hi)&((x-lo)%st==0); }
static N anyNode() { return vtc_symbolic() ? vtc::any<N>("node") : vtc::any_in<N>("node",0,22); }
CONTRACT(range_refuses_bad_stride) {
  N l=vtc::any<N>("lo"), h=vtc::any<N>("hi"), s=vtc::any<N>("stride"); REQUIRES(s<1);
  vtc_expect_abort(1); Range r(l,h,s); ENSURES("stride-below-one-refused", false);
}
CONTRACT(range_contains) { auto r=anyRange(); auto x=anyNode(); ENSURES("range-membership", r.contains(x)==in(x)); ENSURES("range-is-no-list", !r.isList()); }
CONTRACT(range_size) {  // size is the number of members
  auto r=anyRange(); size_t n=r.getSize();
  ENSURES("range-empty-iff-size-zero", (n==0)==(lo==hi));
  ENSURES("range-size-counts-nodes", vtc::implies(n>0, (lo+(int)(n-1)*st<hi)&(lo+(int)n*st>=hi)));
}
CONTRACT(range_head_tail) {
  auto r=anyRange(); REQUIRES(lo<hi); auto x=anyNode();
  ENSURES("range-head-is-first", r.head()==lo); auto t=r.tail();
  ENSURES("range-tail-is-all-but-head", t->contains(x)==(in(x)&(x!=lo))); ENSURES("range-tail-size", t->getSize()==r.getSize()-1);
}
CONTRACT(range_remove_extent) {
  auto r=anyRange(); REQUIRES(lo<hi); auto x=anyNode(); auto n=vtc::any_in<N>("extent",0,6); REQUIRES((n<=r.getSize())&(lo+n*st<=32767));
  Range q(r,n); ENSURES("removing-an-extent-drops-the-first-nodes", q.contains(x)==(in(x)&(x>=lo+n*st))); ENSURES("extent-size", q.getSize()==r.getSize()-n);
}
CONTRACT(range_copy) { auto r=anyRange(); auto x=anyNode(); auto c=r.copy(); ENSURES("range-copy-same-set", (c->contains(x)==in(x))&(c->getSize()==r.getSize()));
  RangeData d(r); auto b=d.getRange(); ENSURES("range-message-data-same-set", (b.contains(x)==in(x))&(b.getSize()==r.getSize())); r.sort(); ENSURES("range-sort-keeps-set", r.contains(x)==in(x)); }
CONTRACT(range_split) {
  auto r=anyRange(); auto x=anyNode(); REQUIRES(r.getSize()>=2);
  auto t=r.split(); auto& a=std::get<0>(t); auto& b=std::get<1>(t);
  ENSURES("range-halves-partition", ((a->contains(x)|b->contains(x))==in(x))&!(a->contains(x)&b->contains(x)));
  ENSURES("range-halves-sizes", (a->getSize()+b->getSize()==r.getSize())&(a->getSize()>=1)&(b->getSize()>=1));
}
CONTRACT(range_split_refused) { auto r=anyRange(); REQUIRES(lo+st>=hi); vtc_expect_abort(1); r.split(); ENSURES("split-of-fewer-than-two-refused", false); }
static void splitN(int n) {
  auto r=anyRange(); REQUIRES(lo<hi); if (n>2) REQUIRES((hi<=20)&(st<=4)); auto x=anyNode(); unsigned parts=0, hits=0; size_t sum=0; bool nonempty=true, heads=true;
  r.splitN(n,[&](std::unique_ptr<Region> p){ parts++; hits+=p->contains(x); auto z=p->getSize(); sum+=z; nonempty=nonempty&(z>0); heads=heads&in(p->head())&p->contains(p->head()); });
  ENSURES("range-parts-partition", hits==(in(x)?1u:0u)); ENSURES("range-parts-sizes", (sum==r.getSize())&nonempty&heads);
  ENSURES("range-part-count", parts==(r.getSize()<(size_t)n ? r.getSize() : (size_t)n));
}
CONTRACT(range_splitN) { splitN(1+(int)vtc::choose(2)); }   // the system splits into two
CONTRACT(range_splitN_more) { splitN(3); }
CONTRACT(range_list) {
  auto r=anyRange(); auto x=anyNode(); REQUIRES(r.getSize()<=6); auto const& l=r.makeList();
  bool seq=true; size_t k=0; for (auto e : l) { seq=seq&(e==lo+(int)k*st); k++; }
  ENSURES("range-list-is-the-nodes-in-order", seq&(k==r.getSize())); ENSURES("range-list-stable", &r.makeList()==&l && l.size()==k);
}
CONTRACT(range_list_contains) { auto r=anyRange(); auto x=anyNode(); REQUIRES(r.getSize()<=6); r.makeList(); ENSURES("range-membership-after-listing", r.contains(x)==in(x)); }
// lists
static std::vector<N> ref;
static std::vector<N> anyList(unsigned max, bool sorted=false) {
  ref.clear(); std::vector<N> v; auto n=vtc::choose(max+1);
  for (unsigned k=0;k<n;k++) { N e=vtc_symbolic()?vtc::any<N>("elm"):vtc::any_in<N>("elm",0,22); if (sorted&&k) REQUIRES(e>v[k-1]); v.push_back(e); }
  ref=v; return v;
}
static unsigned cnt(std::vector<N> const& v, N x) { unsigned c=0; for (auto e : v) c+=(e==x); return c; }
static bool same(List const& l, size_t from=0) { bool r=l.list_.size()+from==ref.size(); for (size_t k=0;r && k<l.list_.size();k++) r=r&(l.list_[k]==ref[k+from]); return r; }
CONTRACT(list_contains) { auto v=anyList(5); List l(v); auto x=anyNode(); ENSURES("list-membership", l.contains(x)==(cnt(ref,x)>0)); ENSURES("list-size", l.getSize()==ref.size()); ENSURES("list-is-list", l.isList()&(&l.makeList()==&l.list_)&same(l)); }
CONTRACT(list_sort) { auto v=anyList(4); List l(v); auto x=anyNode(); l.sort(); l.sort(); bool s=true; for (size_t k=1;k<l.list_.size();k++) s=s&(l.list_[k-1]<=l.list_[k]);
  ENSURES("list-sorted", s); ENSURES("list-sort-keeps-nodes", cnt(l.list_,x)==cnt(ref,x)); ENSURES("sorted-list-membership", l.contains(x)==(cnt(ref,x)>0)); }
CONTRACT(list_head_tail) { auto v=anyList(5); REQUIRES(!v.empty()); List l(v); ENSURES("list-head", l.head()==ref[0]); auto t=l.tail(); ENSURES("list-tail", t->isList() && same(static_cast<List&>(*t),1));
  auto n=vtc::choose(3); REQUIRES(n<=ref.size()); List q(l,(N)n); ENSURES("list-without-extent", same(q,n)); ENSURES("list-unchanged", same(l)); }
CONTRACT(list_tail_contains) { auto v=anyList(4); REQUIRES(!v.empty()); List l(v); auto x=anyNode(); bool rest=cnt(ref,x)>(ref[0]==x?1u:0u); auto t=l.tail(); ENSURES("list-tail-membership", t->contains(x)==rest); List q(l,(N)1); ENSURES("list-without-extent-membership", q.contains(x)==rest);
  if (ref.size()>=2) { auto h=l.split(); ENSURES("list-halves-membership", (std::get<0>(h)->contains(x)|std::get<1>(h)->contains(x))==(cnt(ref,x)>0)); } }
CONTRACT(list_head_refused) { List l(std::vector<N>{}); vtc_expect_abort(1); l.head(); ENSURES("head-of-empty-list-refused", false); }
CONTRACT(list_copies) { auto v=anyList(3); List l(v); auto x=anyNode(); auto c=l.copy(); ENSURES("list-copy", same(static_cast<List&>(*c)) && c->contains(x)==l.contains(x)); List m(std::move(v)); ENSURES("list-from-moved", same(m));
  auto w=anyList(4,true); List s(w.data(),w.size(),true); ENSURES("list-from-array", same(s)); ENSURES("sorted-array-membership", s.contains(x)==(cnt(ref,x)>0));
  auto sc=s.copy(); ENSURES("sorted-copy-membership", sc->contains(x)==(cnt(ref,x)>0)); auto st=s.tail(); if (!ref.empty()) ENSURES("sorted-tail-membership", st->contains(x)==((cnt(ref,x)>0)&(x!=ref[0]))); }
CONTRACT(list_split) { auto v=anyList(5); REQUIRES(v.size()>=2); List l(v); auto x=anyNode(); auto t=l.split(); auto& a=static_cast<List&>(*std::get<0>(t)); auto& b=static_cast<List&>(*std::get<1>(t));
  ENSURES("list-halves-partition", cnt(a.list_,x)+cnt(b.list_,x)==cnt(ref,x)); ENSURES("list-halves-sizes", (a.getSize()+b.getSize()==ref.size())&(a.getSize()>=1)&(b.getSize()>=1)&(b.getSize()-a.getSize()<=1)); }
CONTRACT(list_split_refused) { auto v=anyList(1); List l(v); ShallowList s(v); vtc_expect_abort(1); if (vtc::choose(2)) l.split(); else s.split(); ENSURES("split-of-fewer-than-two-refused", false); }
CONTRACT(list_splitN) { auto v=anyList(5); List l(v); auto x=anyNode(); int n=1+(int)vtc::choose(4); unsigned parts=0,hits=0; size_t sum=0; bool ne=true;
  l.splitN(n,[&](std::unique_ptr<Region> p){ parts++; hits+=cnt(static_cast<List&>(*p).list_,x); sum+=p->getSize(); ne=ne&(p->getSize()>0); });
  ENSURES("list-parts-partition", hits==cnt(ref,x)); ENSURES("list-parts-sizes", (sum==ref.size())&ne&(parts==(ref.size()<(size_t)n?ref.size():(size_t)n))); }
CONTRACT(shallow_contains) { auto v=anyList(5,true); ShallowList s(v); auto x=anyNode(); bool has=cnt(ref,x)>0; ENSURES("shallow-membership", s.contains(x)==has); ENSURES("shallow-size", (s.getSize()==ref.size())&s.isList());
  auto c=s.copy(); ENSURES("shallow-copy", same(static_cast<List&>(*c)) && c->contains(x)==has); v.push_back(0); if (!ref.empty()) {
    List l(ref); ShallowList f(l); ENSURES("shallow-head", f.head()==ref[0]); auto t=f.tail(); ENSURES("shallow-tail", (t->getSize()==ref.size()-1)&(t->contains(x)==(has&(x!=ref[0])))); ENSURES("shallow-tail-order", ref.size()<2 || t->head()==ref[1]); } }
CONTRACT(shallow_splitN) { auto v=anyList(5,true); ShallowList s(v); auto x=anyNode(); bool has=cnt(ref,x)>0; int n=1+(int)vtc::choose(4); unsigned parts=0,hits=0; size_t sum=0; bool ne=true;
  s.splitN(n,[&](std::unique_ptr<Region> p){ parts++; hits+=p->contains(x); sum+=p->getSize(); ne=ne&(p->getSize()>0); });
  ENSURES("shallow-parts-partition", hits==(has?1u:0u)); ENSURES("shallow-parts-sizes", (sum==ref.size())&ne&(parts==(ref.size()<(size_t)n?ref.size():(size_t)n)));
  if (ref.size()>=2) { auto t=s.split(); ENSURES("shallow-halves-partition", (std::get<0>(t)->contains(x)+std::get<1>(t)->contains(x))==(has?1:0)); ENSURES("shallow-halves-sizes", std::get<0>(t)->getSize()+std::get<1>(t)->getSize()==ref.size()); } }
CONTRACT(list_hash_respects_equality) { auto v=anyList(4); auto w=v; ListHash h; ENSURES("equal-lists-hash-equally", h(v)==h(w)); }
