// Included before every translation unit of the reduction contracts: recording stand-ins for what surrounds a
// reduction (message sending, running a handler, the handler registry, the set of reducers).  Only the names used in
// the text of the reduction sources are bound to them; the headers, and with them every type, are the real ones.
#pragma once
// the reduction code itself is left out here: it is read after the stand-ins are in place
#define INCLUDED_VT_COLLECTIVE_REDUCE_REDUCE_IMPL_H
#define INCLUDED_VT_COLLECTIVE_REDUCE_REDUCE_MANAGER_IMPL_H
#define INCLUDED_VT_COLLECTIVE_REDUCE_OPERATORS_DEFAULT_OP_IMPL_H
#include "vt/config.h"
#include "vt/messaging/active.h"
#include "vt/collective/collective_ops.h"
#include "vt/collective/collective_alg.h"
#include "vt/registry/auto/auto_registry_interface.h"
#include "vt/runnable/make_runnable.h"
#include "vt/context/context.h"
#include "vt/pipe/pipe_headers.h"
#include "vt/pipe/pipe_callback_only.h"
#include "vt/configs/debug/debug_colorize.h"
#include "vt/collective/reduce/reduce_msg.h"
#include "vt/collective/reduce/reduce_manager.h"
#include "vt/collective/reduce/get_reduce_stamp.h"
#undef INCLUDED_VT_COLLECTIVE_REDUCE_REDUCE_IMPL_H
#undef INCLUDED_VT_COLLECTIVE_REDUCE_REDUCE_MANAGER_IMPL_H
#undef INCLUDED_VT_COLLECTIVE_REDUCE_OPERATORS_DEFAULT_OP_IMPL_H
namespace vtc_env {
struct Sent { void* han; int dest; void* msg; };
inline Sent sent[16]; inline int nsent=0;
struct Run { void* msg; int64_t han; bool td; }; inline Run runs[16]; inline int nruns=0;
struct Han { void* f; void (*call)(void*); }; inline Han hans[16]; inline int nhans=0; inline int nsetup=0;
inline vt::collective::reduce::ReduceManager* mgr=nullptr;
struct Msg {
  template <auto f, typename M> int sendMsg(vt::NodeType d, M& m) { auto* p=m.get(); vt::messageRef(p); sent[nsent++]=Sent{(void*)f,d,p}; return 0; }
  template <typename M> void setupEpochMsg(M*) { nsetup++; }
  template <typename M> vt::EpochType getEpochContextMsg(M&) { return vt::no_epoch; }
};
inline Msg msg_;
template <typename M> struct Runnable { M* m; vt::HandlerType h; bool td=false; Runnable&& withTDEpochFromMsg() { td=true; return std::move(*this); }
  void run() { runs[nruns++]=Run{m,(int64_t)h,td}; hans[h-1].call(m); } };
struct Disp { vt::HandlerType h; Disp* operator->() { return this; } template <typename M> void dispatch(M* m, void*) { hans[h-1].call(m); } };
template <typename M, typename F> vt::HandlerType reg(F f, void (*call)(void*)) { for (int k=0;k<nhans;k++) if (hans[k].f==(void*)f) return k+1; hans[nhans++]=Han{(void*)f,call}; return nhans; }
}
namespace vt {
inline vtc_env::Msg* vtc_theMsg() { return &vtc_env::msg_; } inline collective::reduce::ReduceManager* vtc_theCollective() { return vtc_env::mgr; }
namespace runnable { template <typename MP, typename... X> auto vtc_makeRunnable(MP& m, bool, HandlerType h, X&&...) { return vtc_env::Runnable<std::remove_pointer_t<decltype(m.get())>>{m.get(),h}; } }
namespace auto_registry { template <typename M, auto f> HandlerType vtc_makeAutoHandler() { return vtc_env::reg<M>(f,[](void* p){ f(static_cast<M*>(p)); }); }
  inline vtc_env::Disp vtc_getAutoHandler(HandlerType h) { return vtc_env::Disp{h}; } }
}
#define theMsg vtc_theMsg
#define theCollective vtc_theCollective
#define makeRunnable vtc_makeRunnable
#define makeAutoHandler vtc_makeAutoHandler
#define getAutoHandler vtc_getAutoHandler
#include "vt/collective/reduce/operators/default_op.impl.h"
