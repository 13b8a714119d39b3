// Circular buffer and scheduler queue: first in, first out; nothing lost, nothing repeated.
// @source vt/pipe/signal/signal_holder.cc
// @opt stl_model=True
// @assume circular buffer: elements are pushed only when it is not full, popped only when it is not empty (callers test)
#include "vtc.h"
#include "vt/utils/container/circular_buffer.h"
#include "vt/scheduler/queue.h"
#include <cstdlib>
using namespace vt; using V=uint8_t;
template <int C> using Buf=util::container::CircularBuffer<V,C>;
// a buffer in any state: any read and write position, any contents
template <int C> static void any_state(Buf<C>& b) { b.head_=vtc::any_in<int>("head",0,C-1); b.tail_=vtc::any_in<int>("tail",0,C-1); if (vtc_symbolic()) { V* a=vtc::any_array<V>("elements",C); __builtin_memcpy(&b.elms_,a,sizeof(V)*C); } else for (int k=0;k<C;k++) b.elms_[k]=vtc::any<V>("element"); }
template <int C> static int held(Buf<C> const& b) { int d=b.head_-b.tail_; return d+(C & -(int)(d<0)); }
template <int C> static V at(Buf<C> const& b, int k) { int i=b.tail_+k; return b.elms_[i-(C & -(int)(i>=C))]; }
template <int C> static void push_() {
  Buf<C> b; any_state(b); int n=held(b); ENSURES("counts", (b.size()==n)&(b.numFree()==C-1-n)&(b.empty()==(n==0))&(b.full()==(n==C-1))); REQUIRES(n<C-1); auto v=vtc::any<V>("new"); int k=vtc::any_in<int>("position",0,C-1); REQUIRES(k<n); V x=at(b,k); int how=vtc::choose(3);
  if (how==0) b.push(v); else if (how==1) { V t=v; b.push(std::move(t)); } else b.emplace(v);
  ENSURES("one-more", (held(b)==n+1)&(b.size()==n+1)&!b.empty()); ENSURES("added-last", at(b,n)==v); ENSURES("others-in-place", at(b,k)==x); ENSURES("positions-in-range", (b.head_>=0)&(b.head_<C)&(b.tail_>=0)&(b.tail_<C)); }
template <int C> static void push_empty() { Buf<C> b; any_state(b); REQUIRES(held(b)==0); auto v=vtc::any<V>("new"); b.push(v); ENSURES("only-element", (b.size()==1) && at(b,0)==v); ENSURES("comes-back", b.pop()==v); ENSURES("empty-again", b.empty()&(b.size()==0)&(b.numFree()==C-1)); }
template <int C> static void pop_() { Buf<C> b; any_state(b); int n=held(b); REQUIRES(n>0); int k=vtc::any_in<int>("position",0,C-1); REQUIRES(k<n); V f=at(b,0), x=at(b,k); V r=b.pop(); ENSURES("oldest-first", r==f); ENSURES("one-less", (held(b)==n-1)&(b.size()==n-1)); if (k>0) ENSURES("others-move-up", at(b,k-1)==x); ENSURES("positions-in-range", (b.head_>=0)&(b.head_<C)&(b.tail_>=0)&(b.tail_<C)); }
CONTRACT(push) { if (vtc::choose(2)) push_<5>(); else push_<64>(); } CONTRACT(push_first) { if (vtc::choose(2)) push_empty<5>(); else push_empty<64>(); } CONTRACT(pop) { if (vtc::choose(2)) pop_<5>(); else pop_<64>(); }
CONTRACT(fresh_buffer) { Buf<8> b; ENSURES("empty", b.empty()&!b.full()&(b.size()==0)&(b.numFree()==7)); }
CONTRACT(smallest_buffer) { Buf<2> b; any_state(b); int n=held(b); ENSURES("one-place", (b.full()==(n==1))&(b.numFree()==1-n)); if (n==0) { auto v=vtc::any<V>("v"); b.push(v); ENSURES("full", b.full()); ENSURES("comes-back", b.pop()==v); } }
// the scheduler's queue: the buffer, and behind it any number of further elements
using Q=sched::Queue<V>; static constexpr int C=64;
static std::size_t any_queue(Q& q) { any_state(q.buf_); int n=held(q.buf_);
#ifdef VTC_NATIVE
  std::size_t m=n==C-1?vtc::any_in<uint32_t>("behind",0,20):0; for (std::size_t k=0;k<m;k++) q.impl_.c.push_back(vtc::any<V>("behind element"));
#else
  std::size_t m=vtc::any_in<std::size_t>("behind",0,std::size_t{1}<<40); REQUIRES((m==0) | (n==C-1)); auto& d=q.impl_.c; d.cap=m+2; d.b=0; d.n=m; d.p=vtc::any_array<V>("behind element",m+2);
#endif
  return n+m; }
static V at(Q& q, std::size_t k) { std::size_t n=held(q.buf_); return k<n?at(q.buf_,(int)k):q.impl_.c[k-n]; }
static bool inv(Q& q) { return (held(q.buf_)==C-1) | q.impl_.empty(); }
CONTRACT(queue_push) { Q& q=*new Q; auto n=any_queue(q); ENSURES("counts", (q.size()==n)&(q.empty()==(n==0))); auto v=vtc::any<V>("new"); auto k=vtc_symbolic()?vtc::any<std::size_t>("position"):vtc::any_in<uint32_t>("position",0,90); bool has=k<n; V x=has?at(q,k):0; if (vtc::choose(2)) q.push(v); else { V t=v; q.emplace(std::move(t)); }
  ENSURES("one-more", (q.size()==n+1)&!q.empty()); ENSURES("added-last", at(q,n)==v); if (has) ENSURES("others-in-place", at(q,k)==x); ENSURES("buffer-filled-first", inv(q)); }
CONTRACT(queue_pop) { Q& q=*new Q; auto n=any_queue(q); REQUIRES(n>0); auto k=vtc_symbolic()?vtc::any<std::size_t>("position"):vtc::any_in<uint32_t>("position",0,90); REQUIRES(k<n); V f=at(q,0), x=at(q,k); V r=q.pop(); ENSURES("oldest-first", r==f); ENSURES("one-less", (q.size()==n-1)&(q.empty()==(n==1))); if (k>0) ENSURES("others-move-up", at(q,k-1)==x); ENSURES("buffer-filled-first", inv(q)); }
CONTRACT(queue_pop_empty_refused) { Q& q=*new Q; any_state(q.buf_); REQUIRES(held(q.buf_)==0); vtc_expect_abort(1); q.pop(); ENSURES("refused", false); }
CONTRACT(queue_fresh) { Q q; ENSURES("empty", q.empty() && q.size()==0); auto v=vtc::any<V>("v"); q.push(v); ENSURES("one", (q.size()==1)&!q.empty()); ENSURES("comes-back", q.pop()==v); ENSURES("empty-again", q.empty()); }
