// Included before every translation unit of the load balancing contracts: recording stand-ins for messages to the
// balancers of other nodes, reductions among them, collective epochs and the instrumentation of objects.  Only the
// names used in the text of the balancers are bound to them; the headers, and with them every type, are the real ones.
#pragma once
#define INCLUDED_VT_VRT_COLLECTION_BALANCE_BASELB_BASELB_H // read below, after the stand-ins are in place
#define INCLUDED_VT_VRT_COLLECTION_BALANCE_LB_INVOKE_LB_MANAGER_H
#define INCLUDED_VT_VRT_COLLECTION_BALANCE_LB_DATA_RESTART_READER_H
#include "vt/config.h"
// the text of error messages is not built (whether and where an error is raised is unchanged)
#include "vt/configs/debug/debug_fmt.h"
#include INCLUDE_FMT_FORMAT
#include INCLUDE_FMT_OSTREAM
#include <sstream>
#include <fstream>
#include <iostream>
#include <iomanip>
#include <locale>
#include <chrono>
namespace fmt { template <typename... A> inline std::string vtc_format(A&&...) { return std::string(); } }
#define format(...) vtc_format(__VA_ARGS__)
#include "vt/context/context.h"
#include "vt/configs/debug/debug_fmt.h"
#include "vt/messaging/active.h"
#include "vt/objgroup/headers.h"
#include "vt/vrt/collection/balance/lb_common.h"
#include "vt/vrt/collection/balance/lb_type.h"
#include "vt/vrt/collection/balance/read_lb.h"
#include "vt/vrt/collection/balance/lb_invoke/invoke_msg.h"
#include "vt/vrt/collection/balance/lb_invoke/phase_info.h"
#include "vt/vrt/collection/balance/node_lb_data.h"
#include "vt/vrt/collection/balance/lb_data_holder.h"
#include "vt/vrt/collection/balance/model/load_model.h"
#include "vt/vrt/collection/balance/baselb/baselb_msgs.h"
#include "vt/elm/elm_comm.h"
#include "vt/elm/elm_lb_data.h"
#include "vt/configs/arguments/app_config.h"
#include "vt/collective/reduce/reduce.h"
#include "vt/collective/collective_alg.h"
#include "vt/phase/phase_manager.h"
#include "vt/timing/timing.h"
#include "vt/runtime/component/component_pack.h"
#include "vt/scheduler/scheduler.h"
#include "vt/serialization/messaging/serialized_messenger.h"
#include "vt/vrt/collection/manager.h"
#include <set>
#include <map>
#include <list>
#include <deque>
#include <algorithm>
#include <random>
#include <cstdlib>
#undef INCLUDED_VT_VRT_COLLECTION_BALANCE_BASELB_BASELB_H
#undef INCLUDED_VT_VRT_COLLECTION_BALANCE_LB_INVOKE_LB_MANAGER_H
#undef INCLUDED_VT_VRT_COLLECTION_BALANCE_LB_DATA_RESTART_READER_H
namespace vtc_env {
template <auto f> inline char tag_=0; template <auto f> constexpr void* tag() { return &tag_<f>; }
// a message to the balancer of one node (or of all: node -1), and what it runs there
struct Sent { int node; void* fn; void* msg; int stage; }; inline Sent sent[32]; inline int nsent=0;
// a contribution to a reduction: its operation (0 sum, 1 or), whom it reaches (-1 all), the value
struct Reduced { int root; void* fn; int op; void* val; int stage; }; inline Reduced reduced[8]; inline int nreduced=0;
// collective epochs: what arrives while one is open, and how many have been run
inline void (*arrive)(int stage)=nullptr; inline int stage=0; inline bool open_=false; inline bool nested=false;
template <typename F> void epoch(F&& f) { nested|=open_; open_=true; f(); if (arrive) arrive(stage); open_=false; stage++; }
// a scatter: one piece of the same size per node, filled in by the caller and handed to the handler of each node
inline int nnodes=1; inline void (*at_node)(int)=nullptr; inline int nscatter=0; inline bool sized=true; inline std::size_t piece_size=0;
struct Coll { template <typename T, auto f, typename S, typename D> void scatter(std::size_t total, std::size_t max, S&&, D&& d) { nscatter++; piece_size=max; sized&=(total>=max*(std::size_t)nnodes); void* piece[4]; for (int n=0;n<nnodes;n++) { piece[n]=std::malloc(max); d((vt::NodeType)n,static_cast<std::byte*>(piece[n])); } for (int n=0;n<nnodes;n++) { at_node(n); f(static_cast<T*>(piece[n])); } } };
inline Coll coll_;
struct Moved { uint64_t id; int to; }; inline Moved moved[8]; inline int nmoved=0;
}
namespace vt { inline vtc_env::Coll* vtc_theCollective() { return &vtc_env::coll_; }
namespace objgroup { namespace proxy {
template <typename O> struct vtc_Elm { int node; ObjGroupProxyType p;
  template <typename M, auto f, typename... A> void send(A&&... a) const { vtc_env::sent[vtc_env::nsent++]=vtc_env::Sent{node,vtc_env::tag<f>(),::new M(std::forward<A>(a)...),vtc_env::stage}; } };
template <typename O> struct vtc_Proxy { ObjGroupProxyType p=no_obj_group; static inline O* here=nullptr; vtc_Proxy()=default; vtc_Proxy(Proxy<O> const& r) : p(r.getProxy()) {}
  vtc_Elm<O> operator[](NodeType n) const { return vtc_Elm<O>{n,p}; } O* get() const { return here; } ObjGroupProxyType getProxy() const { return p; }
  template <auto f, template <typename> class Op, typename V> void allreduce(V&& v) const { put<f,Op>(-1,std::forward<V>(v)); }
  template <auto f, template <typename> class Op, typename V> void reduce(vtc_Elm<O> e, V&& v) const { put<f,Op>(e.node,std::forward<V>(v)); }
  template <auto f, template <typename> class Op, typename V> void put(int root, V&& v) const { using T=std::decay_t<V>; int op=std::is_same_v<Op<T>,collective::PlusOp<T>>?0:std::is_same_v<Op<T>,collective::OrOp<T>>?1:2; vtc_env::reduced[vtc_env::nreduced++]=vtc_env::Reduced{root,vtc_env::tag<f>(),op,new T(std::forward<V>(v)),vtc_env::stage}; }
  template <typename M, auto f, typename... A> void broadcast(A&&... a) const { vtc_env::sent[vtc_env::nsent++]=vtc_env::Sent{-1,vtc_env::tag<f>(),::new M(std::forward<A>(a)...),vtc_env::stage}; }
  template <typename S> void serialize(S&) {} };
} }
template <typename F> void vtc_runInEpoch(F&& f) { vtc_env::epoch(f); } template <typename L, typename F> void vtc_runInEpoch(L const&, F&& f) { vtc_env::epoch(f); }
}
#define Proxy vtc_Proxy
#include "vt/vrt/collection/balance/baselb/baselb.h"
#include "vt/vrt/collection/balance/lb_invoke/lb_manager.h"
#include "vt/vrt/collection/balance/lb_data_restart_reader.h"
#define theCollective vtc_theCollective
#define runInEpochCollective vtc_runInEpoch
