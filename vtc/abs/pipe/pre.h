// Included before every translation unit of the callback contracts: recording stand-ins for sending messages, running
// handlers and object groups.  Only the names used in the text of the callback sources are bound to them; the headers,
// and with them every type, are the real ones.
#pragma once
// the callback code itself is left out here: it is read after the stand-ins are in place
#define INCLUDED_VT_PIPE_PIPE_MANAGER_TL_IMPL_H
#define INCLUDED_VT_PIPE_PIPE_MANAGER_BASE_IMPL_H
#define INCLUDED_VT_PIPE_CALLBACK_OBJGROUP_SEND_CALLBACK_OBJGROUP_SEND_IMPL_H
#define INCLUDED_VT_PIPE_CALLBACK_PROXY_BCAST_CALLBACK_PROXY_BCAST_IMPL_H
#define INCLUDED_VT_PIPE_CALLBACK_PROXY_BCAST_CALLBACK_PROXY_BCAST_TL_IMPL_H
#define INCLUDED_VT_PIPE_CALLBACK_HANDLER_SEND_CALLBACK_SEND_IMPL_H
#define INCLUDED_VT_PIPE_CALLBACK_HANDLER_SEND_CALLBACK_SEND_TL_IMPL_H
#define INCLUDED_VT_PIPE_CALLBACK_HANDLER_SEND_CALLBACK_SEND_HAN_IMPL_H
#define INCLUDED_VT_PIPE_CALLBACK_HANDLER_BCAST_CALLBACK_BCAST_IMPL_H
#define INCLUDED_VT_PIPE_CALLBACK_HANDLER_BCAST_CALLBACK_BCAST_TL_IMPL_H
#define INCLUDED_VT_PIPE_CALLBACK_ANON_CALLBACK_ANON_TL_IMPL_H
#define INCLUDED_VT_PIPE_CALLBACK_ANON_CALLBACK_ANON_IMPL_H
#define INCLUDED_VT_PIPE_CALLBACK_ANON_CALLBACK_ANON_LISTENER_IMPL_H
#define INCLUDED_VT_PIPE_CALLBACK_OBJGROUP_BCAST_CALLBACK_OBJGROUP_BCAST_IMPL_H
#define INCLUDED_VT_PIPE_CALLBACK_CB_UNION_CB_RAW_BASE_IMPL_H
#define INCLUDED_VT_PIPE_CALLBACK_PROXY_SEND_CALLBACK_PROXY_SEND_IMPL_H
#define INCLUDED_VT_PIPE_CALLBACK_PROXY_SEND_CALLBACK_PROXY_SEND_TL_IMPL_H
#define INCLUDED_VT_PIPE_PIPE_MANAGER_IMPL_H
#include "vt/config.h"
#include "vt/context/context.h"
#include "vt/messaging/active.h"
#include "vt/registry/auto/auto_registry_interface.h"
#include "vt/runnable/make_runnable.h"
#include "vt/objgroup/manager.fwd.h"
#include "vt/objgroup/proxy/proxy_objgroup.h"
#include "vt/objgroup/proxy/proxy_objgroup.impl.h"
#include "vt/group/group_manager.h"
#include "vt/collective/reduce/reduce.h"
#include "vt/pipe/pipe_headers.h"
#include "vt/pipe/pipe_callback_only.h"
#include "vt/pipe/callback/anon/callback_anon.h"
#include "vt/pipe/callback/handler_send/callback_send.h"
#include "vt/pipe/callback/handler_bcast/callback_bcast.h"
#include "vt/pipe/callback/proxy_send/callback_proxy_send.h"
#undef INCLUDED_VT_PIPE_PIPE_MANAGER_TL_IMPL_H
#undef INCLUDED_VT_PIPE_PIPE_MANAGER_BASE_IMPL_H
#undef INCLUDED_VT_PIPE_CALLBACK_OBJGROUP_SEND_CALLBACK_OBJGROUP_SEND_IMPL_H
#undef INCLUDED_VT_PIPE_CALLBACK_PROXY_BCAST_CALLBACK_PROXY_BCAST_IMPL_H
#undef INCLUDED_VT_PIPE_CALLBACK_PROXY_BCAST_CALLBACK_PROXY_BCAST_TL_IMPL_H
#undef INCLUDED_VT_PIPE_CALLBACK_HANDLER_SEND_CALLBACK_SEND_IMPL_H
#undef INCLUDED_VT_PIPE_CALLBACK_HANDLER_SEND_CALLBACK_SEND_TL_IMPL_H
#undef INCLUDED_VT_PIPE_CALLBACK_HANDLER_SEND_CALLBACK_SEND_HAN_IMPL_H
#undef INCLUDED_VT_PIPE_CALLBACK_HANDLER_BCAST_CALLBACK_BCAST_IMPL_H
#undef INCLUDED_VT_PIPE_CALLBACK_HANDLER_BCAST_CALLBACK_BCAST_TL_IMPL_H
#undef INCLUDED_VT_PIPE_CALLBACK_ANON_CALLBACK_ANON_TL_IMPL_H
#undef INCLUDED_VT_PIPE_CALLBACK_ANON_CALLBACK_ANON_IMPL_H
#undef INCLUDED_VT_PIPE_CALLBACK_ANON_CALLBACK_ANON_LISTENER_IMPL_H
#undef INCLUDED_VT_PIPE_CALLBACK_OBJGROUP_BCAST_CALLBACK_OBJGROUP_BCAST_IMPL_H
#undef INCLUDED_VT_PIPE_CALLBACK_CB_UNION_CB_RAW_BASE_IMPL_H
#undef INCLUDED_VT_PIPE_CALLBACK_PROXY_SEND_CALLBACK_PROXY_SEND_IMPL_H
#undef INCLUDED_VT_PIPE_CALLBACK_PROXY_SEND_CALLBACK_PROXY_SEND_TL_IMPL_H
#undef INCLUDED_VT_PIPE_PIPE_MANAGER_IMPL_H
namespace vtc_env {
struct Sent { void* f; int64_t han; int dest; void* msg; }; // dest -2: broadcast, -3: object group
inline Sent sent[16]; inline int nsent=0;
struct Run { void* msg; int64_t han; int td; uint64_t ep; int node; }; inline Run runs[16]; inline int nruns=0;
inline int nsetup=0; inline uint64_t cur_epoch=0; inline void* hans[16]; inline int nhans=0;
template <typename M> M* keep(M* p) { vt::messageRef(p); return p; }
struct Msg {
  template <auto f, typename M> int sendMsg(vt::NodeType d, M& m) { sent[nsent++]=Sent{(void*)f,0,d,keep(m.get())}; return 0; }
  template <typename M, vt::ActiveTypedFnType<M>* f, typename P> int sendMsg(vt::NodeType d, P& m) { sent[nsent++]=Sent{(void*)f,0,d,keep(m.get())}; return 0; }
  template <typename M, typename P> int sendMsg(vt::NodeType d, vt::HandlerType h, P& m) { sent[nsent++]=Sent{nullptr,(int64_t)h,d,keep(m.get())}; return 0; }
  template <typename M> int broadcastMsg(vt::HandlerType h, M* m) { sent[nsent++]=Sent{nullptr,(int64_t)h,-2,keep(m)}; return 0; }
  template <typename M> int broadcastMsg(vt::HandlerType h, vt::MsgSharedPtr<M>& m) { sent[nsent++]=Sent{nullptr,(int64_t)h,-2,keep(m.get())}; return 0; }
  template <typename M> void setupEpochMsg(M*) { nsetup++; }
  vt::EpochType getEpoch() const { return vt::EpochType{cur_epoch}; }
};
inline Msg msg_;
struct Runnable { void* m; vt::HandlerType h; int node; int td=0; uint64_t ep=0; Runnable&& withTDEpochFromMsg() { td=1; return std::move(*this); } Runnable&& withTDEpoch(vt::EpochType e) { td=2; ep=*e; return std::move(*this); }
  void enqueue() { runs[nruns++]=Run{m,(int64_t)h,td,ep,node}; } void run() { enqueue(); } };
inline vt::HandlerType reg(void* f) { for (int k=0;k<nhans;k++) if (hans[k]==f) return k+1; hans[nhans++]=f; return nhans; }
}
namespace vt {
struct VtcGroups { template <typename T> GroupType newGroupCollectiveLabel(T) { return 0; } }; inline VtcGroups vtc_groups; inline VtcGroups* vtc_theGroup() { return &vtc_groups; }
inline vtc_env::Msg* vtc_theMsg() { return &vtc_env::msg_; }
namespace runnable { template <typename MP> vtc_env::Runnable vtc_makeRunnable(MP& m, bool, HandlerType h, NodeType n) { return vtc_env::Runnable{vtc_env::keep(m.get()),h,n}; } inline vtc_env::Runnable vtc_makeRunnableVoid(bool, HandlerType h, NodeType n) { return vtc_env::Runnable{nullptr,h,n}; } }
namespace auto_registry { template <typename M, ActiveTypedFnType<M>* f> HandlerType vtc_makeAutoHandler() { return vtc_env::reg((void*)f); } }
namespace auto_registry { template <typename O, typename M, auto f> HandlerType vtc_makeAutoHandlerCollectionMem() { return 77; } }
// what a handler was registered for: its identifier tells function, kind, message type and object group apart
template <auto f, typename M> struct VtcFn { static inline char c=0; }; template <typename F, typename M> struct VtcFunctor { static inline char c=0; };
template <auto f, typename M> HandlerType vtc_han(int kind) { return (HandlerType)(kind*1000+vtc_env::reg(&VtcFn<f,M>::c)); } template <typename F, typename M> HandlerType vtc_han_functor(bool msg) { return (HandlerType)((msg?4:5)*1000+vtc_env::reg(&VtcFunctor<F,M>::c)); }
inline uint64_t vtc_ctrl=0;
namespace auto_registry { template <typename T, T f, typename M> HandlerType vtc_makeAutoHandlerParam() { return vtc_han<f,M>(1); }
  template <typename F, typename M, bool is_msg> HandlerType vtc_makeAutoHandlerFunctor() { return vtc_han_functor<F,M>(is_msg); }
  template <typename O, typename T, T f, typename M> HandlerType vtc_makeAutoHandlerObjGroupParam(HandlerControlType c) { vtc_ctrl=c; return vtc_han<f,M>(2); }
  template <typename O, typename M, auto f> HandlerType vtc_makeAutoHandlerObjGroup(HandlerControlType c) { vtc_ctrl=c; return vtc_han<f,M>(3); }
  template <typename O, typename T, T f, typename M> HandlerType vtc_makeAutoHandlerCollectionMemParam() { return vtc_han<f,M>(6); }
  template <typename O, typename M, auto f> HandlerType vtc_makeAutoHandlerCollection() { return vtc_han<f,M>(7); } }
struct VtcColl { template <typename P, typename M> int sendMsgWithHan(P const& p, M* m, HandlerType h) { vtc_env::sent[vtc_env::nsent++]=vtc_env::Sent{(void*)4,(int64_t)h,p.where(),vtc_env::keep(m)}; return 0; } };
inline VtcColl vtc_coll; inline VtcColl* vtc_theCollection() { return &vtc_coll; }
namespace objgroup { template <typename M> int vtc_send(MsgSharedPtr<M> m, HandlerType h, NodeType n) { vtc_env::sent[vtc_env::nsent++]=vtc_env::Sent{(void*)3,(int64_t)h,n,vtc_env::keep(m.get())}; return 0; } template <typename M> int vtc_broadcast(MsgSharedPtr<M> m, HandlerType h) { vtc_env::sent[vtc_env::nsent++]=vtc_env::Sent{(void*)3,(int64_t)h,-2,vtc_env::keep(m.get())}; return 0; } }
}
#define theMsg vtc_theMsg
#define theGroup vtc_theGroup
#define makeRunnable vtc_makeRunnable
#define makeRunnableVoid vtc_makeRunnableVoid
#define makeAutoHandler vtc_makeAutoHandler
#define theCollection vtc_theCollection
#define makeAutoHandlerCollectionMem vtc_makeAutoHandlerCollectionMem
#define makeAutoHandlerParam vtc_makeAutoHandlerParam
#define makeAutoHandlerFunctor vtc_makeAutoHandlerFunctor
#define makeAutoHandlerObjGroupParam vtc_makeAutoHandlerObjGroupParam
#define makeAutoHandlerObjGroup vtc_makeAutoHandlerObjGroup
#define makeAutoHandlerCollectionMemParam vtc_makeAutoHandlerCollectionMemParam
#define makeAutoHandlerCollection vtc_makeAutoHandlerCollection
#define INCLUDED_VT_VRT_COLLECTION_MANAGER_H // the collection manager is a stand-in here
#include "vt/pipe/callback/proxy_send/callback_proxy_send.impl.h"
// objgroup::send / objgroup::broadcast in the two sources that use them
#define send vtc_send
#define broadcast vtc_broadcast
#include "vt/pipe/callback/objgroup_send/callback_objgroup_send.impl.h"
#include "vt/pipe/callback/objgroup_bcast/callback_objgroup_bcast.impl.h"
#undef send
#undef broadcast
#include "vt/pipe/callback/anon/callback_anon_listener.impl.h"
#include "vt/pipe/pipe_manager_base.impl.h"
#include "vt/pipe/callback/handler_send/callback_send.impl.h"
#include "vt/pipe/callback/handler_send/callback_send_tl.impl.h"
#include "vt/pipe/callback/handler_bcast/callback_bcast.impl.h"
#include "vt/pipe/callback/handler_bcast/callback_bcast_tl.impl.h"
#include "vt/pipe/callback/anon/callback_anon.impl.h"
#include "vt/pipe/callback/anon/callback_anon_tl.impl.h"
#include "vt/pipe/callback/cb_union/cb_raw_base.impl.h"
#include "vt/pipe/pipe_manager_tl.impl.h"
#include "vt/pipe/pipe_manager.impl.h"
