// Contract (trusted model) of an ordered associative container, used in the verifier's build in place of
// libstdc++'s <set>/<map>.  The container is an ordered list of the elements an execution has touched; a link
// may be "lazy": an unknown, unbounded number of further elements may lie on it.  Looking across a lazy link
// forks over every possibility (nothing there / a new arbitrary element there), so a container made lazy by
// vtc::make_lazy() stands for every content allowed by the element hooks, of any size.
#pragma once
#include "vtc.h"
#include <utility>
#include <iterator>
#include <initializer_list>
#include <bits/stl_function.h>
#include <bits/functional_hash.h>
#include <bits/allocator.h>
#include <new>
namespace vtc { namespace lz {
// element hooks: which single elements are possible, and which ordered pairs a<b
template <typename T> struct hooks {
  static inline bool (*ok)(T const&) = nullptr;
  static inline bool (*sep)(T const&, T const&) = nullptr;
  static inline void (*fill)(T&) = nullptr; using arg=T;
};
// a link may be lazy; its bounds are the keys its end elements had when it was made (elements can be edited in place)
struct nbase { nbase *prev, *next; bool lazy; bool end; bool hasL, hasR; };
template <typename K> struct bnode : nbase { union U { K k; U() {} ~U() {} }; U L_, R_; K& L() { return L_.k; } K& R() { return R_.k; } void setL(K const& k) { ::new ((void*)&L_.k) K(k); } void setR(K const& k) { ::new ((void*)&R_.k) K(k); } bnode() {} };
template <typename T, typename K> struct node : bnode<K> { alignas(T) unsigned char buf[sizeof(T)]; T& v() { return *reinterpret_cast<T*>(buf); } };
template <typename T> struct ident { static T const& key(T const& t) { return t; } };
template <typename T, typename K=T, typename KO=ident<T>, typename CMP=std::less<K>> struct olist {
  using N = node<T,K>; using BN = bnode<K>;
  BN end_; std::size_t n_=0; // n_: materialised elements
  olist() { reset(); }
  void reset() { end_.prev=end_.next=&end_; end_.lazy=end_.hasL=end_.hasR=false; end_.end=true; n_=0; }
  static T& val(nbase* n) { return static_cast<N*>(n)->v(); }
  static K const& key(nbase* n) { return KO::key(val(n)); }
  void set_link(nbase* p, bool lazy) { // bounds of a fresh link: the current keys
    p->lazy=lazy; p->hasL=p->hasR=false; if (!lazy) return;
    auto* l=static_cast<BN*>(p);
    if (!p->end) { l->setL(key(p)); p->hasL=true; }
    if (!p->next->end) { l->setR(key(p->next)); p->hasR=true; }
  }
  void link(nbase* after, nbase* n) { nbase* nx=after->next; n->prev=after; n->next=nx; after->next=n; nx->prev=n; n->end=false; n_++; }
  // a new arbitrary element on the lazy link after p
  nbase* materialise(nbase* p, bool l1, bool l2) {
    auto* n=new N; if (hooks<T>::fill) hooks<T>::fill(*reinterpret_cast<typename hooks<T>::arg*>(n->buf)); else vtc::havoc(n->v(),"elem");
    if (hooks<T>::ok) vtc_assume(hooks<T>::ok(n->v()));
    auto* pl=static_cast<BN*>(p);
    K const& k=KO::key(n->v());
    auto sp=[&](K const& a, K const& b) -> bool { return hooks<K>::sep ? hooks<K>::sep(a,b) : CMP()(a,b); };
    if (p->hasL) vtc_assume(sp(pl->L(),k)); if (p->hasR) vtc_assume(sp(k,pl->R()));
    link(p,n);
    n->lazy=l2; n->hasL=false; n->hasR=p->hasR; if (l2) { n->setL(k); n->hasL=true; if (p->hasR) n->setR(pl->R()); }
    p->lazy=l1; if (l1) { pl->setR(k); p->hasR=true; }
    return n;
  }
  nbase* next(nbase* n) {
    if (n->lazy) { if (vtc::choose(2)) return materialise(n,false,true); n->lazy=false; }
    return n->next;
  }
  nbase* prev(nbase* n) {
    nbase* p=n->prev;
    if (p->lazy) { if (vtc::choose(2)) return materialise(p,true,false); p->lazy=false; }
    return n->prev;
  }
  nbase* first() { return next(&end_); }
  // first element for which below(e) is false
  template <typename F> nbase* lower(F below) {
    nbase* p=&end_;
    nbase* n=p->next;
    while (!n->end && below(val(n))) { p=n; n=p->next; }
    // p: last known below; n: first known not below; elements may lie between
    if (!p->lazy) return n;
    switch (vtc::choose(4)) {
    case 0: p->lazy=false; return n;
    case 1: { nbase* q=materialise(p,true,false); vtc_assume(below(val(q))); return n; }
    case 2: { nbase* e=materialise(p,false,true); vtc_assume(!below(val(e))); return e; }
    default: { nbase* q=materialise(p,true,true); vtc_assume(below(val(q)));
               nbase* e=materialise(q,false,true); vtc_assume(!below(val(e))); return e; }
    }
  }
  nbase* erase(nbase* n) {
    nbase* nx=next(n); nbase* p=n->prev;
    if (n->lazy) { auto* pl=static_cast<BN*>(p); auto* nl=static_cast<BN*>(n);
      if (!p->lazy) { p->hasL=n->hasL; if (n->hasL) pl->setL(nl->L()); }
      p->hasR=n->hasR; if (n->hasR) pl->setR(nl->R()); p->lazy=true; }
    p->next=nx; nx->prev=p; n_--; val(n).~T(); delete static_cast<N*>(n); return nx;
  }
  nbase* insert_before(nbase* pos, T&& v) { auto* n=new N; new (n->buf) T(std::move(v)); nbase* p=pos->prev;
    bool l=p->lazy; link(p,n); set_link(n,l); if (l) set_link(p,l); n->lazy=l; return n; }
  template <typename... X> nbase* insert_new(nbase* pos, X&&... x) { auto* n=new N; ::new ((void*)n->buf) T(std::forward<X>(x)...); nbase* p=pos->prev;
    bool l=p->lazy; link(p,n); set_link(n,l); if (l) set_link(p,l); n->lazy=l; return n; }
  bool any_lazy() { nbase* p=&end_; do { if (p->lazy) return true; p=p->next; } while (!p->end); return false; }
  std::size_t size() { if (!any_lazy()) return n_; return n_+vtc::any_in<uint64_t>("unknown-elements",0,1ull<<40); }
  bool empty() { return first()->end; }
  void clear() { nbase* p=end_.next; while (!p->end) { nbase* q=p->next; val(p).~T(); delete static_cast<N*>(p); p=q; } reset(); }
  void copy_from(olist const& o) { // deep copy of what is known; a lazy container cannot be copied
    if (o.end_.lazy) vtc_assert_fail("model: copy of lazy container",__FILE__,__LINE__);
    for (nbase* q=o.end_.next; !q->end; q=q->next) { if (q->lazy) vtc_assert_fail("model: copy of lazy container",__FILE__,__LINE__); insert_new(&end_,val(q)); }
  }
  void move_from(olist& o) {
    end_.lazy=o.end_.lazy; end_.hasL=o.end_.hasL; end_.hasR=o.end_.hasR; if (o.end_.hasR) end_.setR(o.end_.R());
    if (o.end_.next!=&o.end_) { end_.next=o.end_.next; end_.prev=o.end_.prev; end_.next->prev=&end_; end_.prev->next=&end_; n_=o.n_; }
    o.reset();
  }
  ~olist() { clear(); }
};
template <typename T, typename R, typename O=olist<T>> struct iter {
  using iterator_category=std::bidirectional_iterator_tag; using difference_type=std::ptrdiff_t; using value_type=T; using pointer=R*; using reference=R&;
  nbase* n=nullptr; O* o=nullptr;
  iter()=default; iter(nbase* n_, O* o_) : n(n_), o(o_) {}
  template <typename R2> iter(iter<T,R2,O> const& i) : n(i.n), o(i.o) {}
  R& operator*() const { return O::val(n); } R* operator->() const { return &O::val(n); }
  iter& operator++() { n=o->next(n); return *this; } iter operator++(int) { iter t=*this; ++*this; return t; }
  iter& operator--() { n=o->prev(n); return *this; } iter operator--(int) { iter t=*this; --*this; return t; }
  template <typename R2> bool operator==(iter<T,R2,O> const& b) const { return n==b.n; }
  template <typename R2> bool operator!=(iter<T,R2,O> const& b) const { return n!=b.n; }
};

// An unordered associative container: the keys an execution has looked at, each known present or known absent;
// "lazy" means that further keys, not looked at yet, may be present with arbitrary admissible values.
template <typename P> struct uhooks {   // P = value_type
  static inline void (*make)(P*) = nullptr;  // construct an arbitrary admissible element in place; the key is constrained afterwards
  static inline bool (*ok)(P const&) = nullptr;
};
template <typename K, typename P> struct ukey { static K const& key(P const& p) { return p.first; } };
template <typename K> struct ukey<K,K> { static K const& key(K const& p) { return p; } };
struct ubase { ubase *prev,*next; };
template <typename P> struct unode : ubase { alignas(P) unsigned char buf[sizeof(P)]; P& v() { return *reinterpret_cast<P*>(buf); } };
template <typename K> struct absent { K k; absent* next; };
template <typename K, typename P, typename EQ> struct ulist {
  using N=unode<P>; using KO=ukey<K,P>;
  ubase end_; absent<K>* abs_=nullptr; bool lazy=false; std::size_t n_=0;
  ulist() { reset(); }
  void reset() { end_.prev=end_.next=&end_; n_=0; lazy=false; abs_=nullptr; }
  static P& val(ubase* b) { return static_cast<N*>(b)->v(); }
  static K const& key(ubase* b) { return KO::key(val(b)); }
  N* push(N* n) { n->prev=end_.prev; n->next=&end_; end_.prev->next=n; end_.prev=n; n_++; return n; }
  N* arbitrary() { N* n=new N;
    if (uhooks<P>::make) uhooks<P>::make(reinterpret_cast<P*>(n->buf)); else { auto& r=n->buf; vtc::havoc(r,"elem"); }
    if (uhooks<P>::ok) vtc_assume(uhooks<P>::ok(n->v())); return n; }
  bool known_absent(K const& k) { for (auto* a=abs_; a; a=a->next) if (EQ()(a->k,k)) return true; return false; }
  ubase* find(K const& k) {
    for (ubase* b=end_.next; b!=&end_; b=b->next) if (EQ()(key(b),k)) return b;
    if (!lazy || known_absent(k)) return &end_;
    if (vtc::choose(2)) { N* n=arbitrary(); vtc_assume(EQ()(key(n),k)); return push(n); }
    abs_=new absent<K>{k,abs_}; return &end_;
  }
  ubase* next(ubase* b) {
    if (b->next==&end_ && lazy) { if (vtc::choose(2)) { N* n=arbitrary();
        for (ubase* q=end_.next; q!=&end_; q=q->next) vtc_assume(!EQ()(key(q),key(n)));
        for (auto* a=abs_; a; a=a->next) vtc_assume(!EQ()(a->k,key(n)));
        push(n); } else lazy=false; }
    return b->next;
  }
  ubase* first() { return next(&end_); }
  ubase* erase(ubase* b) { ubase* nx=next(b); if (lazy) abs_=new absent<K>{key(b),abs_}; b->prev->next=b->next; b->next->prev=b->prev; n_--; val(b).~P(); delete static_cast<N*>(b); return nx; }
  std::size_t size() { return lazy ? n_+vtc::any_in<uint64_t>("unknown-elements",0,1ull<<40) : n_; }
  bool empty() { return first()==&end_; }
  void clear() { ubase* p=end_.next; while (p!=&end_) { ubase* q=p->next; val(p).~P(); delete static_cast<N*>(p); p=q; } reset(); }
  void copy_from(ulist const& o) { if (o.lazy) vtc_assert_fail("model: copy of lazy container",__FILE__,__LINE__);
    for (ubase* q=o.end_.next; q!=&o.end_; q=q->next) { N* n=new N; ::new ((void*)n->buf) P(val(q)); push(n); } }
  void move_from(ulist& o) { lazy=o.lazy; abs_=o.abs_; n_=o.n_;
    if (o.end_.next!=&o.end_) { end_.next=o.end_.next; end_.prev=o.end_.prev; end_.next->prev=&end_; end_.prev->next=&end_; }
    o.reset(); }
  ~ulist() { clear(); }
};
template <typename P, typename R, typename O> struct uiter {
  using iterator_category=std::forward_iterator_tag; using difference_type=std::ptrdiff_t; using value_type=P; using pointer=R*; using reference=R&;
  ubase* n=nullptr; O* o=nullptr;
  uiter()=default; uiter(ubase* n_, O* o_) : n(n_), o(o_) {}
  template <typename R2> uiter(uiter<P,R2,O> const& i) : n(i.n), o(i.o) {}
  R& operator*() const { return O::val(n); } R* operator->() const { return &O::val(n); }
  uiter& operator++() { n=o->next(n); return *this; } uiter operator++(int) { uiter t=*this; ++*this; return t; }
  template <typename R2> bool operator==(uiter<P,R2,O> const& b) const { return n==b.n; }
  template <typename R2> bool operator!=(uiter<P,R2,O> const& b) const { return n!=b.n; }
};
} }
