// The discrete-interval set behaves as the mathematical set of its values.
// @opt stl_model=True
// @assume contract of std::set (ordered container, vtc/stl/vtc_lazy.h) assumed; the set never holds all 2^64 values at once
// @assume bounded: overlapping interval insertion is decided for an interval overlapping at most two stored intervals; copies for sets of at most two intervals
// @copt insert_overlapping budget=70
// @copt insert_overlapping cost=9
// @copt insert_overlapping bound_budget=20
// @copt insert_overlapping hard_s=15
// @copt insert_overlapping_count budget=70
// @copt insert_overlapping_count cost=9
// @copt insert_overlapping_count bound_budget=20
// @copt insert_overlapping_count hard_s=15
// @copt erase_shape cost=8
// @copt insert_disjoint cost=7
// @copt insert_value cost=7
// @copt iterate_step cost=8
#include "vtc.h"
#include "vt/termination/interval/integral_set.h"
#include <new>
#include <vector>
using U=uint64_t; using Set=vt::IntegralSet<U>; using Iv=Set::IntervalType;
static U lo_of(Iv const& i) { return i.lb_; } static U hi_of(Iv const& i) { return i.ub_; }
enum { MEMBER=0, SHAPE=1, COUNT=2 };
#ifdef VTC_SYMBOLIC
// An arbitrary set satisfying the representation invariant: intervals valid, ordered, never touching; bounds,
// hint and count agree with them.  Each contract asks only for the part of the invariant it needs and leaves the
// rest looser (more states, never fewer): SHAPE = exact bounds and any valid hint, COUNT = exact value count.
static U rest; static bool counting; static U blo, bhi;   // rest = number of values not looked at yet
using L=std::remove_reference_t<decltype(std::declval<Set>().set_.l)>; using B=vtc::lz::nbase;
static bool ok_(Iv const& i) { return (i.lb_ <= i.ub_)&(blo<=i.lb_)&(i.ub_<=bhi)&((i.lb_!=0)|(i.ub_!=~0ull)); }
static bool sep_(Iv const& a, Iv const& b) { return (a.ub_ < b.lb_) & (a.ub_+1 != b.lb_); }
static void fill_(Iv& i) { U l=vtc::any<U>("lo"), h=vtc::any<U>("hi"); i.lb_=l; i.ub_=h; if (counting) { vtc_assume((l<=h)&(h-l<rest)); rest-=(h-l)+1; } }
static L& li(Set& s) { return s.set_.l; }
static U known(Set& s) { U w=0; for (B* b=li(s).end_.next; !b->end; b=b->next) w+=L::val(b).ub_-L::val(b).lb_+1; return w; }
static void setup(Set& s, int mode) {
  vtc::lz::hooks<Iv>::ok=ok_; vtc::lz::hooks<Iv>::sep=sep_; vtc::lz::hooks<Iv>::fill=fill_;
  counting=mode==COUNT; rest=vtc::any<U>("values"); s.elms_=rest; s.hint_=s.set_.end();
  blo=s.lb_=vtc::any<U>("lower"); bhi=s.ub_=vtc::any<U>("upper"); vtc_assume((blo!=0)|(bhi!=~0ull));
  if (rest==0) return;
  vtc_assume(blo<=bhi);
  auto& l=li(s); l.end_.lazy=true;
  if (mode!=SHAPE) return;
  B* f=l.materialise(&l.end_,false,true); B* last=f;
  if (vtc::choose(2)) last=l.materialise(f,true,false); else f->lazy=false;
  vtc_assume((s.lb_==L::val(f).lb_)&(s.ub_==L::val(last).ub_));
  switch (vtc::choose(4)) { case 0: break; case 1: s.hint_=s.set_.it(f); break; case 2: s.hint_=s.set_.it(last); break;
    default: if (f->lazy) s.hint_=s.set_.it(l.materialise(f,true,true)); }
}
static bool member(Set& s, U v) { B* b=li(s).lower([&](Iv const& e) { return e.ub_<v; }); return !b->end && L::val(b).lb_<=v; }
static B* first_hit(Set& s, U a, U b) { B* n=li(s).lower([&](Iv const& e) { return e.ub_<a; }); return (!n->end && L::val(n).lb_<=b) ? n : nullptr; }
static void shape(Set& s) {
  auto& l=li(s);
  bool ord=true; B* p=nullptr; bool hint=s.hint_.n==&l.end_;
  for (B* b=l.end_.next; !b->end; b=b->next) { auto const& i=L::val(b); ord=ord & (i.lb_<=i.ub_); if (p) ord=ord & sep_(L::val(p),i); p=b; if (s.hint_.n==b) hint=true; }
  ENSURES("set-intervals-ordered-and-apart", ord);
  ENSURES("set-hint-points-into-the-set", hint);
  if (!l.first()->end) ENSURES("set-bounds", (s.lower()==L::val(l.first()).lb_)&(s.upper()==L::val(l.prev(&l.end_)).ub_));
}
static void counts(Set& s) {
  bool lz=li(s).any_lazy(); if (!lz) vtc_assume(rest==0);
  ENSURES("set-size-counts-values", s.size()==known(s)+rest);
  if (!lz) ENSURES("set-empty-iff-no-values", s.empty()==(li(s).n_==0));
}
#else
// native: a set reached through its own interface, against std::set
static void setup(Set& s, int) { auto n=vtc::any_in<unsigned>("n",0,8); U base=vtc::choose(3)==0 ? vtc::any<U>("base") : 0;
  for (unsigned k=0;k<n;k++) { U a=base+vtc::any_in<U>("a",0,40), w=vtc::any_in<U>("w",0,5); if (a+w<a) continue; s.insertInterval(Iv(a,a+w)); } 
  auto m=vtc::any_in<unsigned>("m",0,3); for (unsigned k=0;k<m;k++) { U a=base+vtc::any_in<U>("e",0,40); if (s.contains(a)) s.erase(a); } }
static bool member(Set& s, U v) { for (auto i=s.ibegin(); i!=s.iend(); ++i) if (i->lower()<=v && v<=i->upper()) return true; return false; }
static void shape(Set& s) { U w=0; bool ord=true; Iv p; bool h=false; bool hint=s.hint_==s.set_.end();
  for (auto i=s.ibegin(); i!=s.iend(); ++i) { w+=i->width(); ord=ord&&i->valid(); if (h) ord=ord && p.upper()<i->lower() && i->lower()-p.upper()>=2; p=*i; h=true; if (s.hint_==i) hint=true; }
  ENSURES("set-intervals-ordered-and-apart", ord); ENSURES("set-size-counts-values", s.size()==w); ENSURES("set-hint-points-into-the-set", hint);
  ENSURES("set-empty-iff-no-values", s.empty()==!h); if (h) ENSURES("set-bounds", (s.lower()==s.ibegin()->lower())&&(s.upper()==p.upper())); }
static void counts(Set& s) { shape(s); }
#endif
static U val(Set& s, const char* n) { (void)s; 
#ifdef VTC_SYMBOLIC
  return vtc::any<U>(n);
#else
  U v=vtc::any_in<U>(n,0,48); return s.empty()||vtc::choose(2)==0 ? v : s.lower()-1+v%((s.upper()-s.lower())+3 ? (s.upper()-s.lower())+3 : 1);
#endif
}
// the set and the inserted values together are not all 2^64 values
#define ROOM(a,b) REQUIRES(((a)<=(b))&((s.lb_!=0)|(s.ub_!=~0ull)|s.empty())&((a)!=0|(s.ub_!=~0ull)|s.empty())&((b)!=~0ull|(s.lb_!=0)|s.empty())&((a)!=0|(b)!=~0ull))
#define SETUP(m) alignas(16) static unsigned char buf[sizeof(Set)]; auto& s=*new (buf) Set(); setup(s,m);
CONTRACT(contains) {
  SETUP(MEMBER) U v=val(s,"v"), q=val(s,"q"); bool in=member(s,v), oq=member(s,q); auto n=s.size();
  ENSURES("contains-is-membership", s.contains(v)==in);
  ENSURES("lookup-leaves-the-set-alone", (member(s,q)==oq)&(s.size()==n));
  if (in) ENSURES("bounds-cover-members", (s.lower()<=v)&(v<=s.upper())&!s.empty()); 
}
CONTRACT(insert_value) {
  // inserting one value, new or already present
  SETUP(MEMBER) U v=val(s,"v"), q=val(s,"q"); ROOM(v,v); bool oq=member(s,q);
  auto it=s.insert(v);
  ENSURES("insert-adds-exactly-the-value", member(s,q)==(oq|(q==v)));
  ENSURES("insert-result-holds-the-value", it->contains(v));
}
CONTRACT(insert_value_shape) { SETUP(SHAPE) U v=val(s,"v"); ROOM(v,v); s.insert(v); shape(s); }
CONTRACT(insert_value_count) {
  SETUP(COUNT) U v=val(s,"v"); auto n=s.size(); bool in=member(s,v); ROOM(v,v);
  s.insert(v);
  ENSURES("insert-counts-new-values-only", s.size()==n+(in?0:1));
  counts(s);
}
static void disjoint(Set& s, U a, U b) {
#ifdef VTC_SYMBOLIC
  if (first_hit(s,a,b)) vtc_assume(false);
#else
  for (auto i=s.ibegin(); i!=s.iend(); ++i) REQUIRES(b<i->lower() || i->upper()<a);
#endif
}
CONTRACT(insert_disjoint) {
  SETUP(MEMBER) U a=val(s,"a"), b=val(s,"b"), q=val(s,"q"); REQUIRES(a<=b); ROOM(a,b); disjoint(s,a,b);
  bool oq=member(s,q);
  auto it=s.insertInterval(Iv(a,b));
  ENSURES("insert-interval-adds-exactly-its-values", member(s,q)==(oq|((a<=q)&(q<=b))));
  ENSURES("insert-interval-result", it->contains(a)&it->contains(b));
}
CONTRACT(insert_disjoint_shape) { SETUP(SHAPE) U a=val(s,"a"), b=val(s,"b"); REQUIRES(a<=b); ROOM(a,b); disjoint(s,a,b); s.insertInterval(Iv(a,b)); shape(s); }
CONTRACT(insert_disjoint_count) {
  SETUP(COUNT) U a=val(s,"a"), b=val(s,"b"); REQUIRES(a<=b); auto n=s.size(); ROOM(a,b); disjoint(s,a,b);
  s.insertInterval(Iv(a,b));
  ENSURES("insert-interval-counts-its-values", s.size()==n+(b-a)+1);
  counts(s);
}
// insertion over one or two stored intervals (bounded: not three or more)
static void two_hits(Set& s, U a, U b) {
  unsigned k=0;
#ifdef VTC_SYMBOLIC
  B* n=first_hit(s,a,b); if (!n) { vtc_assume(false); return; } U h=L::val(n).ub_; if (h>=b) return;
  B* n2=first_hit(s,h+1,b); if (n2) { U h2=L::val(n2).ub_; if (h2<b) vtc_assume(!first_hit(s,h2+1,b)); }
#else
  for (auto i=s.ibegin(); i!=s.iend(); ++i) if (i->lower()<=b && a<=i->upper()) k++;
  REQUIRES(k==1||k==2);
#endif
}
CONTRACT(insert_overlapping) {
  SETUP(MEMBER) U a=val(s,"a"), b=val(s,"b"), q=val(s,"q"); ROOM(a,b); two_hits(s,a,b);
#ifdef VTC_SYMBOLIC
  REQUIRES(s.size()>=bhi-blo); // loose count: an upper bound, so that it cannot reach zero early
#endif
  bool oq=member(s,q);
  auto it=s.insertInterval(Iv(a,b));
  ENSURES("insert-interval-adds-exactly-its-values", member(s,q)==(oq|((a<=q)&(q<=b))));
  ENSURES("insert-interval-result", it->contains(a)&it->contains(b));
}
CONTRACT(insert_overlapping_count) {
  SETUP(COUNT) U a=val(s,"a"), b=val(s,"b"); ROOM(a,b); two_hits(s,a,b);
  s.insertInterval(Iv(a,b)); counts(s);
}
CONTRACT(erase) {
  SETUP(MEMBER) U v=val(s,"v"), q=val(s,"q"); if (!member(s,v)) REQUIRES(false);
  bool oq=member(s,q);
  s.erase(v);
  ENSURES("erase-removes-exactly-the-value", member(s,q)==(oq&(q!=v)));
}
CONTRACT(erase_shape) { SETUP(SHAPE) U v=val(s,"v"); if (!member(s,v)) REQUIRES(false); s.erase(v); shape(s); }
CONTRACT(erase_count) {
  SETUP(COUNT) U v=val(s,"v"); if (!member(s,v)) REQUIRES(false);
  auto n=s.size();
  s.erase(v);
  ENSURES("erase-counts", s.size()==n-1);
  counts(s);
}
CONTRACT(clear) {
  SETUP(SHAPE) U q=val(s,"q"); s.clear();
  ENSURES("cleared-set-is-empty", s.empty()&(s.size()==0)&(s.compressedSize()==0));
  ENSURES("cleared-set-has-no-members", (!s.contains(q))&(!member(s,q)));
  shape(s);
}
CONTRACT(iterate) {
  // the value iterator steps through exactly the members in order: from the first, and from any position
  SETUP(SHAPE) U q=val(s,"q"); bool oq=member(s,q);
  if (s.empty()) { ENSURES("iterating-an-empty-set", s.begin()==s.end()); return; }
  auto b=s.begin(); U x=*b;
  ENSURES("first-value-is-the-least", (x==s.lower())&vtc::implies(oq,q>=x));
}
CONTRACT(iterate_step) {
  SETUP(MEMBER) U p=val(s,"p"), q=val(s,"q"); if (!member(s,p)) REQUIRES(false);
  auto i=s.set_.find(Iv(p)); Set::ForwardIter it(i,p-i->lower());
  ENSURES("iterator-value", *it==p);
  auto nx=it; ++nx;
  bool oq=member(s,q);
  if (nx==s.end()) ENSURES("iteration-ends-after-the-greatest-value", vtc::implies(oq,q<=p));
  else { U y=*nx; ENSURES("iteration-steps-to-the-next-value", (y>p)&vtc::implies(oq,(q<=p)|(q>=y))&vtc::implies(q==y,oq)); }
}
CONTRACT(iterate_back) {
  SETUP(MEMBER) U p=val(s,"p"); if (!member(s,p)) REQUIRES(false);
  auto i=s.set_.find(Iv(p)); Set::ForwardIter it(i,p-i->lower()); auto nx=it; ++nx; --nx;
  ENSURES("iteration-steps-back", nx==it);
}
CONTRACT(compressed) {
  SETUP(SHAPE)
  ENSURES("compressed-size-zero-iff-empty", (s.compressedSize()==0)==s.empty());
  if (!s.empty()) ENSURES("range-is-upper-minus-lower", s.range()==s.upper()-s.lower());
}
CONTRACT(copy_small) {
  // sets of up to two intervals: copies and moved-to sets hold the same values and are independent
  Set a; auto n=vtc::choose(3); U at=0;
  for (unsigned k=0;k<n;k++) { U g=vtc::any_in<U>("gap",2,10), w=vtc::any_in<U>("w",0,3); a.insertInterval(Iv(at+g,at+g+w)); at+=g+w; }
  U q=vtc::any<U>("q"), v=vtc::any_in<U>("v",0,30); bool oq=a.contains(q), ov=a.contains(v); auto sz=a.size();
  Set c(a), d; d=a;
  ENSURES("copy-equals-source", (c.contains(q)==oq)&(d.contains(q)==oq)&(c.size()==sz)&(d.size()==sz));
  c.insert(v);
  ENSURES("copy-is-independent", (a.contains(v)==ov)&(a.size()==sz)&c.contains(v)&(c.size()==sz+(ov?0:1)));
  Set e(std::move(a)); e.insert(v);
  ENSURES("moved-set-usable", e.contains(v)&(e.size()==sz+(ov?0:1))&(e.contains(q)==(oq|(q==v))));
}
// one interval on its own
CONTRACT(interval) {
  U a=vtc::any<U>("a"), b=vtc::any<U>("b"), v=vtc::any<U>("v"), c=vtc::any<U>("c"), d=vtc::any<U>("d"); REQUIRES((a<=b)&(c<=d));
  Iv i(a,b), j(c,d);
  ENSURES("interval-accessors", (i.lower()==a)&(i.upper()==b)&i.valid()&(i.width()==b-a+1));
  ENSURES("interval-contains", i.contains(v)==((a<=v)&(v<=b)));
  ENSURES("interval-intersects", Iv::intersects(i,j)==((a<=d)&(c<=b)));
  ENSURES("interval-order", Iv::less(i,j)==(b<c));
  ENSURES("interval-equality", ((i==j)==((a==c)&(b==d)))&((i!=j)==!(i==j)));
  ENSURES("point-interval", (Iv(v).lower()==v)&(Iv(v).upper()==v)&(Iv(v).width()==1));
}
CONTRACT(interval_join) {
  U a=vtc::any<U>("a"), b=vtc::any<U>("b"), c=vtc::any<U>("c"), d=vtc::any<U>("d"), v=vtc::any<U>("v"); REQUIRES((a<=b)&(c<=d)&(d!=~0ull)&(c!=0)&(b!=~0ull)&(a!=0));
  Iv i(a,b), j(c,d); auto p=i.tangent(j);
  ENSURES("tangent-left", (p==Iv::PositionEnum::TangentLeft)==(d+1==a));
  ENSURES("tangent-right", (p==Iv::PositionEnum::TangentRight)==(b+1==c));
  if (p!=Iv::PositionEnum::NotTangent) { bool u=i.contains(v)|j.contains(v); i.join(j,p); ENSURES("join-is-union", i.contains(v)==u); }
}
CONTRACT(interval_get) {
  U a=vtc::any<U>("a"), b=vtc::any<U>("b"); uint64_t k=vtc::any<uint64_t>("k"); REQUIRES((a<=b)&(k<=b-a));
  Iv i(a,b); ENSURES("interval-kth-value", i.get(k)==a+k);
  U x=vtc::any<U>("x"); Iv l=i, h=i;
  if (x<=b) { l.setLower(x); ENSURES("set-lower", (l.lower()==x)&(l.upper()==b)); }
  if (x>=a) { h.setUpper(x); ENSURES("set-upper", (h.lower()==a)&(h.upper()==x)); }
}
