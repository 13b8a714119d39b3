// A reducer for a demonstration: what it sends is recorded (pre.h), handlers are run in place.
#pragma once
#define DEMO_CONTEXT
#include "demo.h"
#include "vt/collective/reduce/reduce.h"
#include "vt/collective/reduce/reduce.impl.h"
#include "vt/collective/reduce/reduce_manager.impl.h"
#include "vt/pool/pool.h"
using namespace vt; using namespace vt::collective::reduce; namespace op=vt::collective::reduce::operators; namespace rd=vt::collective::reduce::detail; using vtc_env::sent; using vtc_env::nsent;
alignas(64) static unsigned char pool_[64];
namespace vt { pool::Pool* thePool() { return reinterpret_cast<pool::Pool*>(pool_); } namespace pool { std::byte* Pool::alloc(size_t const& n, size_t o) { return static_cast<std::byte*>(std::malloc(n+o)); } void Pool::dealloc(std::byte*) {} } }
using Data=std::tuple<uint64_t>; using RMsg=op::ReduceTMsg<Data>; using Sum=op::PlusOp<Data>; static constexpr auto H=&RMsg::msgHandler<RMsg,Sum,op::NoCombine>;
static Reduce& reducer(bool root, int kids) { demo_context(0,1); static ReduceManager m; vtc_env::mgr=&m; std::vector<NodeType> c; for (int k=0;k<kids;k++) c.push_back(k+1); collective::tree::Tree t(root,root?-1:5,c); return *new Reduce(rd::makeScope<rd::StrongUserID>(7),&t); }
static RMsg* message(Reduce& r, ReduceStamp s, uint64_t v, NodeType root) { auto p=makeMessage<RMsg>(Data{v}); auto* m=p.get(); messageRef(m); m->reduce_id_=rd::ReduceIDImpl{s,r.scope_}; m->combine_handler_=vtc_env::reg<RMsg>(H,[](void* q){ H(static_cast<RMsg*>(q)); }); m->reduce_root_=root; return m; }
static uint64_t value(void* m) { return std::get<0>(static_cast<RMsg*>(m)->getVal()); }
