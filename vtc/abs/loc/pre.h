// Included before every translation unit of the location contracts: recording stand-ins for the network (messages to
// the location manager of another node), epochs, termination units, callbacks and running a handler.  Only the names
// used in the text of the location sources are bound to them; the headers, and with them every type, are the real ones.
#pragma once
#define INCLUDED_VT_TOPOS_LOCATION_LOCATION_H // read below, after the stand-ins are in place
#define INCLUDED_VT_TOPOS_LOCATION_LOCATION_IMPL_H
#define INCLUDED_VT_TOPOS_LOCATION_MANAGER_H
#include "vt/config.h"
#include "vt/context/context.h"
#include "vt/messaging/active.h"
#include "vt/runnable/make_runnable.h"
#include "vt/topos/location/location_common.h"
#include "vt/topos/location/location.fwd.h"
#include "vt/topos/location/utility/pending.h"
#include "vt/topos/location/utility/entity.h"
#include "vt/topos/location/utility/coord.h"
#include "vt/topos/location/message/msg.h"
#include "vt/topos/location/lookup/lookup.h"
#include "vt/topos/location/record/record.h"
#include "vt/topos/location/record/state.h"
#include "vt/activefn/activefn.h"
#include "vt/vrt/vrt_common.h"
#include "vt/objgroup/manager.h"
#undef INCLUDED_VT_TOPOS_LOCATION_LOCATION_H
#undef INCLUDED_VT_TOPOS_LOCATION_LOCATION_IMPL_H
namespace vtc_env {
// one message in the network: what it runs on arrival
enum Kind { Update, Request, Eager, Routed };
struct Sent { Kind kind; int to, id, a, b; void* msg; bool loc, gone; }; inline Sent sent[48]; inline int nsent=0;
struct Ran { void* msg; int64_t han; int from, at, id; uint64_t ep; bool td; }; inline Ran runs[16]; inline int nruns=0;
struct Unit { uint64_t ep; int n; }; inline Unit units[32]; inline int nunits=0; inline int64_t balance(uint64_t e) { int64_t n=0; for (int k=0;k<nunits;k++) n+=(units[k].ep==e)*units[k].n; return n; }
inline bool dips(uint64_t e) { int64_t n=0; bool d=false; for (int k=0;k+1<nunits;k++) { n+=(units[k].ep==e)*units[k].n; d|=n<=0; } return d; }
inline uint64_t stack[16]; inline int depth=0; inline bool bad_pop=false; inline uint64_t msg_ep=0; inline int nmarked=0; inline int (*here)()=nullptr; inline void (*on_run)(void*)=nullptr;
template <typename I> struct Cb { int node; template <typename... A> void send(A&&... a) const { put(a...); }
  void put(vt::MsgProps const&, I id, vt::NodeType n, vt::NodeType h) const { sent[nsent++]=Sent{Update,node,(int)id,n,h,nullptr,true,false}; } };
template <typename I> struct End { int node;
  template <auto f, typename... A> void send(vt::MsgProps const&, A&&... a) const { put(true,a...); }
  template <auto f> void send(I const& id, vt::NodeType h, vt::NodeType d) const { sent[nsent++]=Sent{Eager,node,(int)id,h,d,nullptr,false,false}; }
  template <auto f, typename M> void sendMsg(M& m) const { auto* p=m.get(); vt::messageRef(p); sent[nsent++]=Sent{Routed,node,(int)p->getEntity(),0,0,p,false,false}; }
  void put(bool l, I const& id, vt::NodeType n, vt::NodeType h) const { sent[nsent++]=Sent{Update,node,(int)id,n,h,nullptr,l,false}; }
  void put(bool l, I const& id, vt::NodeType h, Cb<I> const& c) const { sent[nsent++]=Sent{Request,node,(int)id,h,c.node,nullptr,l,false}; } };
template <typename I> struct Net { End<I> operator[](vt::NodeType n) const { return End<I>{n}; } };
struct Msg { template <typename M> vt::EpochType getEpochContextMsg(M const& m) { return vt::EpochType{msg_ep}; } void pushEpoch(vt::EpochType e) { stack[depth++]=e.get(); } void popEpoch(vt::EpochType e) { bad_pop|=depth<1||stack[depth-1]!=e.get(); if (depth>0) depth--; } template <typename M> void markAsLocationMessage(M const&) { nmarked++; } };
inline Msg msg_;
struct Term { void produce(vt::EpochType e) { units[nunits++]=Unit{e.get(),1}; } void consume(vt::EpochType e) { units[nunits++]=Unit{e.get(),-1}; } }; inline Term term_;
struct CB { template <auto f, typename I> Cb<I> makeSend(End<I> e) { return Cb<I>{e.node}; } }; inline CB cb_;
struct Runnable { Ran r; Runnable&& withTDEpochFromMsg() { r.td=true; return std::move(*this); } void run() { runs[nruns++]=r; if (on_run) on_run(r.msg); } };
}
namespace vt {
namespace objgroup { namespace proxy { template <typename C> struct vtc_Proxy; template <typename I> struct vtc_Proxy<location::EntityLocationCoord<I>> : vtc_env::Net<I> {}; } }
inline vtc_env::Msg* vtc_theMsg() { return &vtc_env::msg_; } inline vtc_env::Term* vtc_theTerm() { return &vtc_env::term_; } inline vtc_env::CB* vtc_theCB() { return &vtc_env::cb_; }
template <typename I, typename, typename> using vtc_Callback=vtc_env::Cb<I>;
namespace runnable { template <typename M> vtc_env::Runnable vtc_makeRunnable(MsgSharedPtr<M> const& m, bool, HandlerType h, NodeType from) { return vtc_env::Runnable{{m.get(),(int64_t)h,from,vtc_env::here(),(int)m->getEntity(),vtc_env::depth?vtc_env::stack[vtc_env::depth-1]:0,false}}; } }
}
#define theMsg vtc_theMsg
#define theTerm vtc_theTerm
#define theCB vtc_theCB
#define Callback vtc_Callback
#define makeRunnable vtc_makeRunnable
#define Proxy vtc_Proxy
#include "vt/topos/location/location.h"
#undef Callback
#undef Proxy
