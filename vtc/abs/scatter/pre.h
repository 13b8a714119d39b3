// Included before every translation unit of the scatter contracts: recording stand-ins for sending messages and for the
// handler registry.  Only the names used in the text of the scatter sources are bound to them; the types are the real ones.
#pragma once
#define INCLUDED_VT_COLLECTIVE_SCATTER_SCATTER_IMPL_H // read below, after the stand-ins are in place
#include "vt/config.h"
#include "vt/messaging/active.h"
#include "vt/collective/collective_alg.h"
#include "vt/registry/auto/auto_registry_interface.h"
#include "vt/context/context.h"
#include "vt/pool/pool.h"
#undef INCLUDED_VT_COLLECTIVE_SCATTER_SCATTER_IMPL_H
namespace vtc_env {
struct Sent { void* han; int dest; vt::collective::scatter::ScatterMsg* msg; };
inline Sent sent[64]; inline int nsent=0;
inline void (*hans[4])(std::byte*); inline int nhans=0; inline int64_t ran_han=-1;
inline vt::collective::scatter::Scatter* here=nullptr;
struct Msg { template <auto f, typename M> int sendMsg(vt::NodeType d, M& m) { auto* p=m.get(); vt::messageRef(p); sent[nsent++]=Sent{(void*)f,d,p}; return 0; } };
inline Msg msg_;
struct Disp { vt::HandlerType h; Disp const* operator->() const { return this; } void dispatch(std::byte* p, void*) const { ran_han=h; hans[h-1](p); } };
}
namespace vt { inline vtc_env::Msg* vtc_theMsg() { return &vtc_env::msg_; } inline collective::scatter::Scatter* vtc_theCollective() { return vtc_env::here; }
namespace auto_registry { template <typename M, auto f> HandlerType vtc_makeScatterHandler() { vtc_env::hans[vtc_env::nhans++]=[](std::byte* p){ f(reinterpret_cast<M*>(p)); }; return vtc_env::nhans; }
  inline vtc_env::Disp vtc_getScatterAutoHandler(HandlerType h) { return vtc_env::Disp{h}; } } }
#define theMsg vtc_theMsg
#define theCollective vtc_theCollective
#define makeScatterHandler vtc_makeScatterHandler
#define getScatterAutoHandler vtc_getScatterAutoHandler
