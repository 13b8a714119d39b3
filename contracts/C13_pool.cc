// The message memory pool: blocks are big enough, disjoint, described by their header and return to where they came from.
// @source vt/pool/pool.cc vt/pool/header/pool_header.cc
// @assume requested sizes do not overflow the address space
// @bounded pool_grows pools of at most 4 slots before growing
// @opt alloc_fork=3
#include "vtc.h"
#define private public
#include "vt/pool/pool.h"
#include "vt/pool/static_sized/memory_pool_equal.h"
#include "vt/pool/static_sized/memory_pool_equal.impl.h"
#undef private
#include <new>
#include <cstdlib>
using namespace vt; using namespace vt::pool;
using S=Pool::MemoryPoolType<memory_size_small>; using M=Pool::MemoryPoolType<memory_size_medium>;
static size_t const SB=memory_size_small, MB=memory_size_medium;
// a pool in any state: any number of slots, any cursor, with one identified free block under the cursor
template <typename P> struct AnyPool {
  alignas(P) unsigned char raw[sizeof(P)]; P* p; uint64_t n; std::byte** slots;
  AnyPool(uint64_t lim) {
    p=reinterpret_cast<P*>(raw); n=vtc::any_in<uint64_t>("slots",1,lim); slots=vtc::any_array<std::byte*>("free list",n);
    *const_cast<int64_t*>(&p->num_bytes_)=std::is_same_v<P,S>?SB:MB; *const_cast<int64_t*>(&p->num_full_bytes_)=p->num_bytes_+sizeof(Header); p->pool_size_=vtc::any<int64_t>("initial size");
    new (&p->holder_) std::vector<std::byte*>(); p->holder_._M_impl._M_start=slots; p->holder_._M_impl._M_finish=slots+n; p->holder_._M_impl._M_end_of_storage=slots+n;
    p->cur_slot_=vtc::any_in<int64_t>("cursor",0,(int64_t)n);
  }
};
template <typename P> static void take() {
  AnyPool<P> a(1ull<<40); auto c=a.p->cur_slot_; REQUIRES((uint64_t)c+1<a.n);
  auto k=vtc::any<uint64_t>("other slot"); REQUIRES((k<a.n)&(k!=(uint64_t)c)); auto* other=a.slots[k];
  auto* blk=static_cast<std::byte*>(std::malloc(a.p->num_full_bytes_)); a.slots[c]=blk;
  auto sz=vtc::any<size_t>("size"), ov=vtc::any<size_t>("oversize");
  auto* r=a.p->alloc(sz,ov);
  ENSURES("allocation-takes-the-free-block", r==blk+sizeof(Header)); ENSURES("header-records-the-request", (HeaderManager::getHeaderBytes(r)==sz)&(HeaderManager::getHeaderOversizeBytes(r)==ov)&(HeaderManager::getHeaderPtr(r)==blk));
  ENSURES("one-slot-taken", a.p->cur_slot_==c+1); ENSURES("other-slots-untouched", (a.slots[k]==other)&(a.p->holder_.size()==a.n)); std::free(blk);
}
CONTRACT(small_pool_alloc) { take<S>(); } CONTRACT(medium_pool_alloc) { take<M>(); }
template <typename P> static void give() {
  AnyPool<P> a(1ull<<40); auto c=a.p->cur_slot_; REQUIRES(c>=1); auto k=vtc::any<uint64_t>("other slot"); REQUIRES((k<a.n)&(k!=(uint64_t)c-1)); auto* other=a.slots[k];
  auto* blk=static_cast<std::byte*>(std::malloc(a.p->num_full_bytes_)); a.p->dealloc(blk+sizeof(Header));
  ENSURES("block-becomes-the-next-free-one", (a.p->cur_slot_==c-1)&(a.slots[c-1]==blk)); ENSURES("other-slots-untouched", a.slots[k]==other); std::free(blk);
}
CONTRACT(small_pool_dealloc) { give<S>(); } CONTRACT(medium_pool_dealloc) { give<M>(); }
CONTRACT(pool_grows) {
  int64_t n=1+(int64_t)vtc::choose(4); S p(n); ENSURES("initial-slots", p.holder_.size()==(size_t)n); std::byte* got[9]; bool ok=true; unsigned m=2*(unsigned)n;
  for (unsigned k=0;k<m;k++) { got[k]=p.alloc(8,0); got[k][SB-1]=std::byte(k); for (unsigned j=0;j<k;j++) ok=ok&(got[j]!=got[k]); }
  ENSURES("live-blocks-are-distinct", ok); ENSURES("live-count", p.cur_slot_==(int64_t)m); bool keep=true; for (unsigned k=0;k<m;k++) keep=keep&(got[k][SB-1]==std::byte(k)); ENSURES("live-blocks-are-disjoint", keep);
  for (unsigned k=0;k<m;k++) p.dealloc(got[k]); ENSURES("all-returned", p.cur_slot_==0);
}
struct P2 { alignas(Pool) unsigned char raw[sizeof(Pool)]; Pool* p; P2() { p=reinterpret_cast<Pool*>(raw); new (&p->small_msg) Pool::MemPoolSType(std::make_unique<S>(4)); new (&p->medium_msg) Pool::MemPoolMType(std::make_unique<M>(4)); } ~P2() { p->small_msg.~unique_ptr(); p->medium_msg.~unique_ptr(); } 
  int64_t s() { return p->small_msg->cur_slot_; } int64_t m() { return p->medium_msg->cur_slot_; } };
static size_t anySize(char const* n) { return vtc_symbolic()?vtc::any<size_t>(n):vtc::any_in<size_t>(n,0,vtc::choose(2)?70:4096); }
#define SIZES(sz,ov) size_t sz=anySize("size"), ov=anySize("oversize"); REQUIRES((sz<=1ull<<40)&(ov<=1ull<<40))
CONTRACT(size_classes) {
  P2 q; SIZES(sz,ov); auto t=q.p->getPoolType(sz,ov); auto total=sz+ov;
  ENSURES("smallest-class-that-fits", vtc::ite(total<=SB, t==Pool::ePoolSize::Small, vtc::ite(total<=MB, t==Pool::ePoolSize::Medium, t==Pool::ePoolSize::Malloc)));
}
CONTRACT(alloc_and_free) {
  P2 q; SIZES(sz,ov); auto* b=q.p->alloc(sz,ov); auto total=sz+ov; REQUIRES(b!=reinterpret_cast<std::byte*>(sizeof(Header)));
  ENSURES("header-records-the-request", (HeaderManager::getHeaderBytes(b)==sz)&(HeaderManager::getHeaderOversizeBytes(b)==ov)); ENSURES("allocated-size", q.p->allocatedSize(b)==total);
  ENSURES("taken-from-its-class", (q.s()==(total<=SB))&(q.m()==((total>SB)&(total<=MB))));
  if (total>0) { auto i=vtc::any<size_t>("byte"); REQUIRES(i<total); b[i]=std::byte(1); b[total-1]=std::byte(2); ENSURES("header-survives-writes-to-the-block", (HeaderManager::getHeaderBytes(b)==sz)&(HeaderManager::getHeaderOversizeBytes(b)==ov)); }
  auto rem=q.p->remainingSize(b); ENSURES("remaining-size-at-least-the-oversize", rem>=ov); if (rem>0) { b[sz+rem-1]=std::byte(3); }
  q.p->dealloc(b); ENSURES("returned-to-its-class", (q.s()==0)&(q.m()==0));
}
CONTRACT(grow_in_place) {
  P2 q; SIZES(sz,ov); auto g=anySize("grow"); auto* b=q.p->alloc(sz,ov); REQUIRES(b!=reinterpret_cast<std::byte*>(sizeof(Header))); auto rem=q.p->remainingSize(b); auto cs=q.s(), cm=q.m();
  bool ok=q.p->tryGrowAllocation(b,g);
  ENSURES("grows-iff-it-fits", ok==(g<=rem)); auto now=HeaderManager::getHeaderBytes(b); ENSURES("grown-size", now==vtc::ite(ok,sz+g,sz));
  if (now>0) b[now-1]=std::byte(1); // the grown allocation lies inside its block
  auto rem2=q.p->remainingSize(b); ENSURES("remaining-shrinks-by-the-growth", rem2==vtc::ite(ok,rem-g,rem)); if (rem2>0) b[now+rem2-1]=std::byte(4);
  q.p->dealloc(b); ENSURES("returned-to-the-class-it-came-from", (q.s()==0)&(q.m()==0)&(cs+cm<=1));
}
CONTRACT(two_blocks) {
  P2 q; SIZES(s1,o1); SIZES(s2,o2); REQUIRES((s1+o1>=1)&(s2+o2>=1)); auto* a=q.p->alloc(s1,o1); auto* b=q.p->alloc(s2,o2); REQUIRES((a!=reinterpret_cast<std::byte*>(sizeof(Header)))&(b!=reinterpret_cast<std::byte*>(sizeof(Header))));
  auto i=vtc::any<size_t>("byte of the first"), j=vtc::any<size_t>("byte of the second"); REQUIRES((i<s1+o1)&(j<s2+o2)); a[i]=std::byte(5); b[j]=std::byte(6); ENSURES("live-blocks-are-disjoint", (a!=b)&(a[i]==std::byte(5)));
  bool first=vtc::choose(2); q.p->dealloc(first?a:b); auto* keep=first?b:a; ENSURES("other-block-keeps-its-content", (keep[first?j:i]==std::byte(first?6:5))&(HeaderManager::getHeaderBytes(keep)==(first?s2:s1)));
  auto* c=q.p->alloc(s1,o1); ENSURES("a-live-block-is-not-handed-out-again", c!=keep); q.p->dealloc(c); q.p->dealloc(keep); ENSURES("all-returned", (q.s()==0)&(q.m()==0));
}
