// Included before every translation unit of the termination contracts: the detector's environment, as recording
// stand-ins.  Only the names used in the text of the detector's sources are bound to them; the headers, and with
// them every type, are the real ones.
#pragma once
#include "vt/config.h"
#include "vt/termination/termination.h"
#include "vt/termination/term_common.h"
#include "vt/termination/term_action.h"
#include "vt/messaging/active.h"
#include "vt/collective/collective_ops.h"
#include "vt/scheduler/scheduler.h"
#include "vt/epoch/epoch_headers.h"
#include "vt/termination/dijkstra-scholten/ds_headers.h"
#include "vt/termination/dijkstra-scholten/comm.h"
#include "vt/termination/dijkstra-scholten/ds.h"
#include "vt/termination/dijkstra-scholten/ack_request.h"
#include "vt/configs/arguments/app_config.h"
#include "vt/configs/debug/debug_colorize.h"
#include "vt/collective/collective_alg.h"
#include "vt/pipe/pipe_headers.h"
#include "vt/registry/auto/auto_registry_interface.h"
#include "vt/runnable/make_runnable.h"
#include "vt/context/context.h"
#include <memory>
#include <algorithm>
namespace vtc_env {
struct Sent { void* han; int dest; void* msg; bool bcast, to_self, term; };
inline Sent sent[16]; inline int nsent=0;
struct Job { void* fn; void (*run)(void*); };
inline Job jobs[16]; inline int njobs=0;
struct Run { void* msg; uint64_t epoch; void* han; }; inline Run runs[16]; inline int nruns=0; inline void* last_han=nullptr;
template <typename M> void put(void* f, int d, M& m, bool b, bool s) {
  auto* p=m.get(); vt::messageRef(p); sent[nsent++]=Sent{f,d,p,b,s,vt::messaging::envelopeIsTerm(p->env)}; }
struct Msg {
  template <auto f, typename M, typename... X> int sendMsg(vt::NodeType d, M&& m, X&&...) { put((void*)f,d,m,false,false); return 0; }
  template <auto f, typename M> int broadcastMsg(M&& m, bool self=true) { put((void*)f,-1,m,true,self); return 0; }
  template <typename M> void markAsTermMessage(M const& m) { vt::setTermType(m->env); }
  vt::EpochType getEpoch() { return vt::no_epoch; }
  void pushEpoch(vt::EpochType) {} vt::EpochType popEpoch(vt::EpochType e) { return e; }
};
struct Sched {
  template <typename F> void enqueue(F f) { jobs[njobs++]=Job{new F(f),[](void* p){ (*static_cast<F*>(p))(); }}; }
  bool isIdle() { return true; } template <typename F> void runSchedulerWhile(F) {}
};
// the windows: one bit of state per queried epoch, see C07 for the real ones
struct Window { static inline uint64_t term_e=0, act_e=0; static inline int nterm=0, nact=0; static inline bool (*is)(uint64_t)=nullptr;
  bool isTerminated(vt::EpochType e) const { return is ? is(e.get()) : false; } void setEpochTerminated(vt::EpochType e) { term_e=e.get(); nterm++; }
  void activateEpoch(vt::EpochType e) { act_e=e.get(); nact++; } vt::EpochType getFirst() const { return vt::no_epoch; } vt::EpochType getLast() const { return vt::no_epoch; } std::size_t getTotalTerminated() const { return nterm; } };
struct Epochs { Window w; static inline uint64_t next=0; Window* getTerminatedWindow(vt::EpochType) { return &w; }
  template <typename... X> vt::EpochType getNextRootedEpoch(X&&...) { return vt::EpochType{next}; } template <typename... X> vt::EpochType getNextCollectiveEpoch(X&&...) { return vt::EpochType{next}; } };
template <typename MP> struct Runnable { MP m; uint64_t ep=0; Runnable&& withTDEpoch(vt::EpochType e, bool=false) { ep=e.get(); return std::move(*this); }
  void enqueue() { vt::messageRef(m.get()); runs[nruns++]=Run{m.get(),ep,last_han}; } };
inline Msg msg_; inline Sched sched_; inline Epochs epochs_;
}
namespace vt {
inline vtc_env::Msg* vtc_theMsg() { return &vtc_env::msg_; } inline vtc_env::Sched* vtc_theSched() { return &vtc_env::sched_; } inline vtc_env::Epochs* vtc_theEpoch() { return &vtc_env::epochs_; }
namespace runnable { template <typename MP, typename... X> vtc_env::Runnable<MP> vtc_makeRunnable(MP& m, X&&...) { return vtc_env::Runnable<MP>{m}; } }
namespace auto_registry { template <typename M, auto f> HandlerType vtc_makeAutoHandler() { vtc_env::last_han=(void*)f; return 0; } }
}
#define theMsg vtc_theMsg
#define theSched vtc_theSched
#define theEpoch vtc_theEpoch
#define makeRunnable vtc_makeRunnable
#define makeAutoHandler vtc_makeAutoHandler
