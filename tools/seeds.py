SEEDS=[]
def S(id,prop,needs,breaks,edits,demo,srcs=(),**k): SEEDS.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo,srcs=list(srcs),**k))
PRIV='#include "demo.h"\n#include <unordered_map>\n#include <unordered_set>\n#include <functional>\n#include <sstream>\n#include <list>\n#include <deque>\n#include <queue>\n#include <any>\n#include <variant>\n#include <optional>\n#include <thread>\n#include <mutex>\n#include <atomic>\n#include <iomanip>\n#include <fstream>\n#include <iostream>\n#include <algorithm>\n#include <chrono>\n#include <condition_variable>\n#include <regex>\n#include <random>\n#include <array>\n#include <shared_mutex>\n#include <memory_resource>\n#define private public\n#define protected public\n'

S('c01-bool-clear','C01','clearing a flag in the low half of a 64-bit word whose high half is not zero','clearing a flag wipes the upper 32 bits of the identifier',
 [('src/vt/utils/bits/bits_packer.impl.h','field &= ~(1UL << start);','field &= ~(1U << start);')],
 '''#include "demo.h"
#include "vt/config.h"
#include "vt/utils/bits/bits_packer.h"
int main() { uint64_t w=0xabcdef0100000007ull; vt::utils::BitPacker::boolSetField<1>(w,false); CHECK(w==0xabcdef0100000005ull); DEMO_END }
''')
S('c01-top-field','C01','reading a field that ends at the top of a signed word whose top bit is set','a field at the top of a signed word reads back sign-extended instead of modulo its width',
 [('src/vt/utils/bits/bits_packer.impl.h','return static_cast<size_t>(len) < sizeof(BitField) * 8 ?','return static_cast<size_t>(start) + len < sizeof(BitField) * 8 ?')],
 '''#include "demo.h"
#include "vt/config.h"
#include "vt/utils/bits/bits_packer.h"
int main() { int64_t w=0; vt::utils::BitPacker::setField<48,16>(w,uint64_t(0xfffe)); auto r=vt::utils::BitPacker::getField<48,16,uint64_t>(w); CHECK(r==0xfffe); DEMO_END }
''')
S('c02-event-id','C02','an event number that does not fit 16 bits','the identifier part of an event is cut to 16 bits, so events far apart collide',
 [('src/vt/event/event_id.cc','''  BitPackerType::setField<
    EventIDBitsType::EventIdent, event_identifier_num_bits
  >(event, id);''','''  BitPackerType::setField<
    EventIDBitsType::EventIdent, event_identifier_num_bits
  >(event, static_cast<int16_t>(id));''')],
 '''#include "demo.h"
#include "vt/config.h"
#include "vt/event/event_id.h"
int main() { auto e=vt::event::EventIDManager::makeEvent(0x12345,5); CHECK(vt::event::EventIDManager::getEventIdentifier(e)==0x12345); CHECK(vt::event::EventIDManager::getEventNode(e)==5); DEMO_END }
''',['vt/event/event_id.cc'])
S('c02-handler-control','C02','a handler control value with its top bit set','the control field is one bit short in the getter and overlaps nothing visible for small values',
 [('src/vt/handler/handler.cc','''    HandlerBitsType::Control, control_num_bits, HandlerControlType
  >(han);''','''    HandlerBitsType::Control, control_num_bits - 1, HandlerControlType
  >(han);''')],
 '''#include "demo.h"
#include "vt/config.h"
#include "vt/handler/handler.h"
int main() { using H=vt::HandlerManager; auto h=H::makeHandler(true,false,77,vt::auto_registry::RegistryTypeEnum::RegGeneral,0x80003); CHECK(H::getHandlerControl(h)==0x80003); CHECK(H::getHandlerIdentifier(h)==77); DEMO_END }
''',['vt/handler/handler.cc'])
S('c03-remote-node','C03','a remote virtual proxy whose creator node needs more than 13 bits','the creator node of a remote proxy spills into the sequence number field',
 [('src/vt/vrt/proxy/proxy_bits.h','RemoteID   = eVirtualProxyRemoteBits::RemoteNode + virtual_node_num_bits','RemoteID   = eVirtualProxyRemoteBits::RemoteNode + virtual_node_num_bits - virtual_is_remote_num_bits')],
 '''#include "demo.h"
#include "vt/config.h"
#include "vt/vrt/proxy/proxy_bits.h"
int main() { using B=vt::vrt::VirtualProxyBuilder; auto a=B::createRemoteProxy(3,0,7,true,false), b=B::createRemoteProxy(3,-32768,7,true,false); CHECK(a!=b);
  std::set<vt::VirtualProxyType> s; for (int n : {0,1,2,-32768,16384}) for (int i=0;i<4;i++) s.insert(B::createRemoteProxy(i,n,7,true,false)); CHECK(s.size()==20); DEMO_END }
''',['vt/vrt/proxy/proxy_bits.cc'])
S('c04-overlap','C04','a collective group (or a negative owner) with an even sequence number','the sequence number overlaps the top bit of the owner, so the owner reads back wrong',
 [('src/vt/group/id/group_id.h','''  ID         = eGroupIDBits::Node       + group_node_num_bits''','''  ID         = eGroupIDBits::Node       + group_node_num_bits - group_is_static_num_bits''')],
 '''#include "demo.h"
#include "vt/config.h"
#include "vt/group/id/group_id.h"
int main() { using G=vt::group::GroupIDBuilder; auto g=G::createGroupID(6,3,true,true); CHECK(G::getGroupID(g)==6); CHECK(G::getNode(g)==vt::group::group_collective_node); DEMO_END }
''',['vt/group/id/group_id.cc'])
S('c05-coll-seq','C05','a collective epoch whose sequence number needs more bits than a rooted one has','large collective sequence numbers read back truncated',
 [('src/vt/epoch/epoch_manip.cc','''      eEpochColl::cEpochSequential, epoch_seq_coll_num_bits, ImplType
''','''      eEpochColl::cEpochSequential, epoch_seq_root_num_bits, ImplType
''')],
 '''#include "demo.h"
#include "vt/config.h"
#include "vt/epoch/epoch_manip.h"
using E=vt::epoch::EpochManip;
int main() { vt::EpochType e=E::generateEpoch(false,vt::uninitialized_destination,vt::epoch::eEpochCategory::DijkstraScholtenEpoch); uint64_t s=(1ull<<(vt::epoch::epoch_seq_coll_num_bits-1))+9; E::setSeq(e,s); CHECK(E::seq(e)==s); DEMO_END }
''',['vt/epoch/epoch_manip.cc','vt/epoch/epoch_window.cc'])
S('c06-tag-epoch','C06','an envelope that carries a tag and an epoch, written tag first','setting the tag of a tag-and-epoch envelope lands in the epoch field',
 [('src/vt/messaging/envelope/envelope_extended_util.impl.h','''  if (envelopeIsEpochType(env) and envelopeIsTagType(env)) {
    reinterpret_cast<EpochTagEnvelope*>(&env)->tag = tag;
  } else if (envelopeIsTagType(env)) {''','''  if (envelopeIsTagType(env)) {''')],
 '''#include "demo.h"
#include "vt/config.h"
#include "vt/messaging/envelope.h"
using namespace vt;
int main() { EpochTagEnvelope e; std::memset(&e,0,sizeof e); setEpochType(e); setTagType(e); envelopeSetEpoch(e,EpochType{0x1122334455667788ull}); envelopeSetTag(e,42); CHECK(envelopeGetTag(e)==42); CHECK(*envelopeGetEpoch(e)==0x1122334455667788ull); DEMO_END }
''')
S('c07-last-epoch','C07','the allocation cursor reaching the last epoch of the window','the last epoch of a window is handed out but stays marked terminated, so it is handed out twice',
 [('src/vt/epoch/epoch_window.cc','''  if (terminated_epochs_.contains(epoch)) {
    terminated_epochs_.erase(epoch);
  }
''','''  if (epoch < EpochType{terminated_epochs_.upper()}) {
    terminated_epochs_.erase(epoch);
  }
''')],
 PRIV+'''#include "vt/config.h"
#include "vt/epoch/epoch_manip.h"
#include "vt/epoch/epoch_window.h"
int main() { vt::epoch::EpochWindow w(vt::EpochType{0}); for (int k=1;k<=3;k++) w.next_epoch_->decrement(); w.next_epoch_->increment(); w.next_epoch_->increment();
  auto a=w.allocateNewEpoch(); CHECK(!w.isTerminated(a)); auto b=w.allocateNewEpoch(); CHECK(!w.isTerminated(b)); CHECK(a!=b); DEMO_END }
''',['vt/epoch/epoch_manip.cc','vt/epoch/epoch_window.cc'])
S('c07-counter','C07','the counter sitting on its upper bound','the wrapping counter steps one past its upper bound before wrapping',
 [('src/vt/utils/adt/ranged_counter.h','    if (cur_ < hi_) {','    if (cur_ <= hi_) {')],
 '''#include "demo.h"
#include "vt/config.h"
#include "vt/utils/adt/ranged_counter.h"
int main() { vt::adt::RangedCounter<uint64_t> c(3,5); for (int k=0;k<20;k++) { ++c; CHECK(c.get()>=3 && c.get()<=5); } DEMO_END }
''')
S('c08-upper','C08','erasing the largest member when it forms an interval of its own','after erasing an isolated largest value the upper bound names a value that is not in the set',
 [('src/vt/termination/interval/integral_set.h','''        ub_ = std::prev(set_.end())->upper();''','''        ub_ = val - 1;''')],
 '''#include "demo.h"
#include "vt/config.h"
#include "vt/termination/interval/integral_set.h"
int main() { vt::IntegralSet<uint64_t> s; for (uint64_t v : {10,11,20}) s.insert(uint64_t(v)); s.erase(20); CHECK(s.upper()==11); CHECK(s.lower()==10); CHECK(s.size()==2); DEMO_END }
''')
S('c08-join','C08','inserting the one value that closes a gap between two stored intervals','when a value closes a gap only the left neighbour is fused, leaving two touching intervals',
 [('src/vt/termination/interval/integral_set.h','''    auto it2 = joinLeft(it);
    return joinRight(it2);''','''    auto const width = it->width();
    auto it2 = joinLeft(it);
    return it2->width() == width ? joinRight(it2) : it2;''')],
 '''#include "demo.h"
#include "vt/config.h"
#include "vt/termination/interval/integral_set.h"
int main() { vt::IntegralSet<uint64_t> s; for (uint64_t v : {10,12,11}) s.insert(uint64_t(v)); CHECK(s.compressedSize()==1); s.erase(12); CHECK(!s.contains(12)); CHECK(s.contains(11)); CHECK(s.size()==2); DEMO_END }
''')
S('c09-tail-sorted','C09','asking an unsorted list that was made by removing leading members','a list built from another by dropping its head claims to be sorted, so membership is searched wrongly',
 [('src/vt/group/region/group_list.cc','''  list_ = std::move(new_list);
  is_sorted_ = in_other.is_sorted_;''','''  list_ = std::move(new_list);
  is_sorted_ = list_.size() > 2 or in_other.is_sorted_;''')],
 '''#include "demo.h"
#include "vt/config.h"
#include "vt/group/region/group_list.h"
int main() { using L=vt::group::region::List; std::vector<vt::NodeType> v{9,7,1,5,3}; L a(v); L b(a,1); for (auto n : {7,1,5,3}) CHECK(b.contains(n)); CHECK(!b.contains(9)); DEMO_END }
''',['vt/group/region/group_list.cc','vt/group/region/group_region.cc'])
S('c09-shallow-last','C09','splitting a shallow list whose length is not a multiple of the parts','the last part of a split shallow list loses the remainder',
 [('src/vt/group/region/group_shallow_list.cc','''    auto const& min_val = split == num_splits - 1 ?
      max_left : std::min(child_size, static_cast<int>(max_left));''','''    auto const& min_val = split == num_splits ?
      max_left : std::min(child_size, static_cast<int>(max_left));''')],
 '''#include "demo.h"
#include "vt/config.h"
#include "vt/group/region/group_shallow_list.h"
int main() { using L=vt::group::region::ShallowList; std::vector<vt::NodeType> v{1,3,5,7,9}; L a(v); size_t n=0; a.splitN(2,[&](std::unique_ptr<vt::group::region::Region> r){ n+=r->getSize(); }); CHECK(n==5); DEMO_END }
''',['vt/group/region/group_shallow_list.cc','vt/group/region/group_list.cc','vt/group/region/group_region.cc'])
S('c10-child','C10','a node whose second child would be exactly one past the last rank','a rank that does not exist is counted among the descendants',
 [('src/vt/collective/tree/tree.cc','''  if (c2_ < num_nodes) {
    children.push_back(c2_);''','''  if (c2_ <= num_nodes) {
    children.push_back(c2_);''')],
 '''#define DEMO_CONTEXT
#include "demo.h"
#include "vt/config.h"
#include "vt/collective/tree/tree.h"
int main() { for (int n=1;n<40;n++) { demo_context(0,n); vt::collective::tree::Tree t(vt::collective::tree::tree_cons_tag_t); CHECK(t.getNumDescendants(0)==(size_t)n-1); } DEMO_END }
''',['vt/collective/tree/tree.cc','vt/context/context.cc'])
S('c11-order','C11','comparing indices of three dimensions that differ in two of them','the order of indices is no longer antisymmetric when a later coordinate is larger and an earlier one smaller',
 [('src/vt/topos/index/dense/dense_array.impl.h','''    } else if (dims[i] > other.dims[i]) {
      return false;
    }''','''    } else if (i == ndim - 1 and dims[i] > other.dims[i]) {
      return false;
    }''')],
 '''#include "demo.h"
#include "vt/config.h"
#include "vt/topos/index/index.h"
int main() { vt::Index3D a(1,5,7), b(2,4,7); CHECK((a<b)!=(b<a)); std::set<vt::Index3D> s; for (int x=0;x<4;x++) for (int y=0;y<4;y++) for (int z=0;z<4;z++) s.insert(vt::Index3D(3-x,y,z)); CHECK(s.size()==64); DEMO_END }
''')
S('c11-rowmajor','C11','row-major linearization in three or more dimensions','the stride is replaced instead of multiplied, so distinct indices share a position from three dimensions on',
 [('src/vt/topos/mapping/dense/dense.impl.h','''  for (auto i = 0; i < ndim; i++) {
    val += dim_size * idx_[i];
    dim_size *= max_idx_[i];
  }''','''  for (auto i = 0; i < ndim; i++) {
    val += dim_size * idx_[i];
    dim_size = max_idx_[i];
  }''')],
 '''#include "demo.h"
#include "vt/config.h"
#include "vt/topos/index/index.h"
#include "vt/topos/mapping/dense/dense.h"
int main() { vt::Index3D m(2,3,4); std::set<int> s; for (int x=0;x<2;x++) for (int y=0;y<3;y++) for (int z=0;z<4;z++) { vt::Index3D i(x,y,z); s.insert(vt::mapping::linearizeDenseIndexRowMajor<int,3>(&i,&m)); } CHECK(s.size()==24); DEMO_END }
''')
S('c12-robin','C12','a 2-d round-robin map on extents that are not square','round-robin deals positions in row-major order, so neighbours in the fastest dimension do not go to consecutive nodes',
 [('src/vt/topos/mapping/dense/dense.impl.h','''  auto const& lin_idx = linearizeDenseIndexColMajor<IndexElmType, 2>(idx, max);''','''  auto const& lin_idx = linearizeDenseIndexRowMajor<IndexElmType, 2>(idx, max);''')],
 '''#include "demo.h"
#include "vt/config.h"
#include "vt/topos/index/index.h"
#include "vt/topos/mapping/dense/dense.h"
int main() { vt::Index2D m(3,5); for (int x=0;x<3;x++) for (int y=0;y<4;y++) { vt::Index2D i(x,y), j(x,y+1); int a=vt::mapping::dense2DRoundRobinMap<int>(&i,&m,7), b=vt::mapping::dense2DRoundRobinMap<int>(&j,&m,7); CHECK(b==(a+1)%7); } DEMO_END }
''')
S('c12-region','C12','a region that ends inside a block','the last piece of a region walk runs to the end of its block instead of the end of the region',
 [('src/vt/rdma/group/rdma_group.h','walk(cur_node, ret, lo, std::min(elm_hi,hi));','walk(cur_node, ret, lo, lo == region.lo ? std::min(elm_hi,hi) : elm_hi);')],
 '''#include "demo.h"
#include "vt/config.h"
#include "vt/context/context.h"
#include "vt/rdma/group/rdma_group.h"
static vt::NodeType bm(vt::RDMA_BlockType b, vt::RDMA_BlockType) { return b; }
int main() { vt::rdma::Group g(vt::rdma::Map(bm,vt::rdma::Map::defaultElmMap),40,4,8); vt::rdma::Region r(5,27); uint64_t at=5; g.walk_region(r,[&](vt::NodeType, vt::rdma::RDMA_BlockElmRangeType, uint64_t l, uint64_t h){ CHECK(l==at); at=h; }); CHECK(at==27); DEMO_END }
''')
S('c13-oversize','C13','a block whose oversize pushes it into the next size class','a freed block returns to the class of its size alone, so a medium block joins the free list of small blocks',
 [('src/vt/pool/pool.cc','''  auto const& oversize = HeaderManagerType::getHeaderOversizeBytes(buf);
  ePoolSize const pool_type = getPoolType(actual_alloc_size, oversize);''','''  ePoolSize const pool_type = getPoolType(actual_alloc_size, 0);''')],
 '''#include "demo.h"
#define private public
#include "vt/pool/pool.h"
#include "vt/pool/static_sized/memory_pool_equal.h"
#include "vt/pool/static_sized/memory_pool_equal.impl.h"
#undef private
using namespace vt::pool; using S=Pool::MemoryPoolType<memory_size_small>; using M=Pool::MemoryPoolType<memory_size_medium>;
int main() { alignas(Pool) static unsigned char raw[sizeof(Pool)]; auto* p=reinterpret_cast<Pool*>(raw); new (&p->small_msg) Pool::MemPoolSType(std::make_unique<S>(4)); new (&p->medium_msg) Pool::MemPoolMType(std::make_unique<M>(4));
  auto* other=p->alloc(16,0); auto* b=p->alloc(memory_size_small-8,memory_size_small); p->dealloc(b); CHECK(p->medium_msg->cur_slot_==0); CHECK(p->small_msg->cur_slot_==1); auto* c=p->alloc(16,0); CHECK(c!=b); (void)other; (void)c; DEMO_END }
''',['vt/pool/pool.cc','vt/pool/header/pool_header.cc'])
S('c13-short','C13','a block handed out after the pool has grown, filled to its end','blocks added when the pool grows leave no room for the header, so the last bytes of a full block lie outside it',
 [('src/vt/pool/static_sized/memory_pool_equal.impl.h','malloc(use_header ? num_full_bytes_ : num_bytes_t)','malloc(use_header and cur_size == 0 ? num_full_bytes_ : num_bytes_t)')],
 """#include "demo.h"
#include <malloc.h>
#define private public
#include "vt/pool/pool.h"
#include "vt/pool/static_sized/memory_pool_equal.h"
#include "vt/pool/static_sized/memory_pool_equal.impl.h"
#undef private
using namespace vt::pool; using S=Pool::MemoryPoolType<memory_size_small>;
int main() { S p(2); for (int i=0;i<8;i++) { auto* b=p.alloc(memory_size_small,0); CHECK(malloc_usable_size(b-sizeof(Header))>=memory_size_small+sizeof(Header)); } DEMO_END }
""",['vt/pool/pool.cc','vt/pool/header/pool_header.cc'])
S('c14-inner','C14','a child message on an outer level of a parent with a set innermost level','re-prioritising a message leaves the innermost level of its parent in place',
 [('src/vt/messaging/message/message_priority.impl.h','''l < sched::priority_num_levels; l++) {''','''l + 1 < sched::priority_num_levels; l++) {''')],
 '''#include "demo.h"
#include "vt/config.h"
#include "vt/messaging/envelope.h"
#include "vt/scheduler/priority_manip.h"
#include "vt/messaging/message/message_priority.h"
#include "vt/messaging/message/message_priority.impl.h"
using namespace vt; struct Msg { Envelope env; };
int main() { Msg a,b; envelopeInitEmpty(a.env); envelopeInitEmpty(b.env); envelopeSetPriority(a.env,default_priority); envelopeSetPriorityLevel(a.env,1);
  messaging::msgSetPriorityFrom(&a,&b,3,false); CHECK(sched::PriorityManip::getPriority(envelopeGetPriority(b.env),4)==0); DEMO_END }
''',['vt/scheduler/priority_manip.cc'],config='prio')

S('c19-two-waves','C19','two consecutive waves at the root, each balanced, with work in between','the root declares termination although the totals moved between the two waves',
 [('src/vt/termination/termination.cc',"""        state.g_prod2 == state.g_cons2 and
        state.g_prod1 == state.g_prod2;""","""        state.g_prod2 == state.g_cons2;""")],
 '''#include "term_demo.h"
int main() { auto& t=detector(true); auto& s=t.any_epoch_state_; s.local_terminated_=true; t.propagateEpochExternal(any_epoch_sentinel,4,4); CHECK(!s.isTerminated()); CHECK(vtc_env::nsent==1);
  t.propagateEpochExternal(any_epoch_sentinel,9,9); CHECK(!s.isTerminated()); t.propagateEpochExternal(any_epoch_sentinel,9,9); CHECK(s.isTerminated()); DEMO_END }
''',term=True)
S('c19-action-unit','C19','two actions registered on the same epoch from within one epoch','only one unit holds the registering epoch for several actions, but each returns one: it can terminate too early',
 [('src/vt/termination/term_action.cc',"""    theTerm()->produce(encapsulated_epoch);
    epoch_actions_""","""    if (epoch_actions_[epoch][encapsulated_epoch].empty()) {
      theTerm()->produce(encapsulated_epoch);
    }
    epoch_actions_""")],
 '''#include "term_demo.h"
int main() { auto& t=detector(false); auto e=wave(3), x=wave(7); t.pushEpoch(x); int ran=0; t.addAction(e,[&]{ ran++; }); t.addAction(e,[&]{ ran++; }); t.triggerAllEpochActions(e,x); CHECK(ran==2); auto& s=t.findOrCreateState(x,false); CHECK(s.l_prod==2); CHECK(s.l_cons==2); DEMO_END }
''',term=True)
S('c19-implied','C19','an epoch nested in two epochs of which one is then nested in the other','giving up an implied dependency keeps the enclosing epoch held forever',
 [('src/vt/termination/epoch_dependency.cc',"""    theTerm()->consume(ep,1);
    theTerm()->removeEpochStateDependency(ep);
  }
  successors_ = remaining;""","""    theTerm()->consume(ep,1);
  }
  successors_ = remaining;""")],
 '''#include "term_demo.h"
int main() { auto& t=detector(false); auto a=wave(3), b=wave(5), o=wave(9); t.addDependency(a,o); t.addDependency(b,o); t.addDependency(a,b); CHECK(t.findOrCreateState(o,false).deps_==1); t.getEpochDep(a)->clearSuccessors(); t.getEpochDep(b)->clearSuccessors(); CHECK(t.findOrCreateState(o,false).deps_==0); CHECK(t.findOrCreateState(o,false).l_prod==t.findOrCreateState(o,false).l_cons); DEMO_END }
''',term=True)
S('c20-late-cleanup','C20','a node that is engaged again between disengaging and its deferred cleanup','the deferred cleanup drops the state of a node engaged again, losing what it owes and waits for',
 [('src/vt/termination/dijkstra-scholten/comm.cc',"""      if (not ptr->isEngaged()) {""","""      if (not ptr->isEngaged() or not ptr->hasSuccessor()) {""")],
 '''#include "term_demo.h"
int main() { auto& t=detector(false); auto e=rooted_ds(4); t.consume(e,1,4); CHECK(vtc_env::njobs==1); t.produce(e,2,6); t.consume(e,1,4); CHECK(t.getDSTerm(e)->isEngaged()); vtc_env::jobs[0].run(vtc_env::jobs[0].fn); CHECK(t.getDSTerm(e)->isEngaged()); CHECK(t.getDSTerm(e)->D==2); DEMO_END }
''',term=True)
S('c20-reengage','C20','a node that acknowledged a second sender, disengaged and is engaged again','what was acknowledged in the last engagement is carried into the next',
 [('src/vt/termination/dijkstra-scholten/ds.cc',"""    C = ackedParent = ackedArbitrary = reqedParent = 0;""","""    C = ackedParent = reqedParent = 0;""")],
 '''#include "term_demo.h"
int main() { auto& t=detector(false); auto e=rooted_ds(4); t.produce(e,1,6); t.consume(e,1,4); t.consume(e,1,7); t.getDSTerm(e)->gotAck(1); auto* d=t.getDSTerm(e); CHECK(!d->isEngaged()); CHECK(d->C==d->processedSum-(d->ackedArbitrary+d->ackedParent)); DEMO_END }
''',term=True)

S('c15-early','C15','a child message arriving before the several contributions of its parent node','the number of contributions announced after a child was heard is ignored: the node sends its partial result too early',
 [('src/vt/collective/reduce/reduce.impl.h','''  if (num_contrib != -1) {
    state.num_contrib_ = num_contrib;''','''  if (num_contrib != -1 and not exists) {
    state.num_contrib_ = num_contrib;''')],
 '''#include "reduce_demo.h"
int main() { auto& r=reducer(false,1); auto st=makeStamp<rd::StrongTag>(3); r.reduceUpHan<RMsg>(message(r,st,100,0)); r.reduceImmediate<RMsg,H>(0,message(r,st,10,0),st,2); CHECK(nsent==0); r.reduceImmediate<RMsg,H>(0,message(r,st,1,0),st,2); CHECK(nsent==1); CHECK(value(sent[0].msg)==111); DEMO_END }
''',env='reduce')
S('c15-reentrant','C15','a result handler that starts the next reduction with the same stamp','the finished reduction is dropped only after its result was delivered, together with the one just started',
 [('src/vt/collective/reduce/reduce.impl.h','''    // Must erase this before invoking the root function/callback because it
    // might be re-entrant
    state_.erase(lookup);

''',''''''),('src/vt/collective/reduce/reduce.impl.h','''      theMsg()->sendMsg<ReduceManager::reduceUpHan<MsgT>>(parent, typed_msg);
    }
''','''      theMsg()->sendMsg<ReduceManager::reduceUpHan<MsgT>>(parent, typed_msg);
    }
    state_.erase(lookup);
''')],
 '''#include "reduce_demo.h"
static Reduce* R; static int n=0; static auto st=makeStamp<rd::StrongTag>(3); struct Act { void operator()(RMsg* m); }; static constexpr auto A=&RMsg::msgHandler<RMsg,Sum,Act>;
void Act::operator()(RMsg*) { if (n++==0) R->reduceImmediate<RMsg,A>(0,message(*R,st,5,0),st,2); }
int main() { R=&reducer(true,0); R->reduceImmediate<RMsg,A>(0,message(*R,st,1,0),st,1); CHECK(n==1); CHECK(R->state_.exists(st)); DEMO_END }
''',env='reduce')
S('c15-chain','C15','three or more messages combined at one node','every second message of the chain is left out of the result',
 [('src/vt/collective/reduce/operators/default_op.impl.h','''      ReduceCombine<>::combine<MsgT,Op,ActOp>(fst_msg, cur_msg);
      cur_msg = cur_msg->template getNext<MsgT>();''','''      ReduceCombine<>::combine<MsgT,Op,ActOp>(fst_msg, cur_msg);
      cur_msg = cur_msg->template getNext<MsgT>();
      if (cur_msg != nullptr and cur_msg->getCount() > 1) {
        cur_msg = cur_msg->template getNext<MsgT>();
      }''')],
 '''#include "reduce_demo.h"
int main() { auto& r=reducer(false,3); auto st=makeStamp<rd::StrongTag>(3); for (int k=0;k<3;k++) r.reduceUpHan<RMsg>(message(r,st,1000>>k,0)); r.reduceImmediate<RMsg,H>(0,message(r,st,7,0),st,1); CHECK(nsent==1); CHECK(value(sent[0].msg)==1000+500+250+7); DEMO_END }
''',env='reduce')
S('c16-wrap','C16','a buffer filled to the last place after its write position wrapped around','a wrapped buffer reports one free place too many and the oldest elements are overwritten',
 [('src/vt/utils/container/circular_buffer.h','      return tail_ - head_ - 1;','      return tail_ - head_;')],
 '''#include "demo.h"
#include "vt/utils/container/circular_buffer.h"
int main() { vt::util::container::CircularBuffer<int,4> b; b.push(1); b.push(2); b.pop(); b.pop(); b.push(3); b.push(4); b.push(5); CHECK(b.full()); CHECK(b.size()==3); DEMO_END }
''',flags='-fno-access-control')
S('c16-behind','C16','more elements queued than the buffer holds, then pops and pushes interleaved','elements behind the buffer move up only once it ran empty: later elements overtake them',
 [('src/vt/scheduler/queue.h','''    if (full_buf and not impl_.empty()) {''','''    if ((full_buf and buf_.size() > 62 or buf_.empty()) and not impl_.empty()) {''')],
 '''#include "demo.h"
#include "vt/scheduler/queue.h"
int main() { vt::sched::Queue<int> q; for (int k=0;k<70;k++) q.push(k); int n=70; for (int k=0;k<200 && !q.empty();k++) { CHECK(q.pop()==k); q.push(n++); } DEMO_END }
''',flags='-fno-access-control')
S('c21-pop-late','C21','a trigger whose action registers another trigger that is due earlier','the trigger is taken from the queue after its action: the new one is lost and the running one stays twice',
 [('src/vt/timetrigger/time_trigger_manager.cc','''      queue_.pop();
      t.runAction(cur_time);
      queue_.push(t);''','''      t.runAction(cur_time);
      queue_.pop();
      queue_.push(t);''')],
 '''#include "demo.h"
#include "vt/timetrigger/time_trigger_manager.h"
using namespace vt; using namespace vt::timetrigger; using ms=std::chrono::milliseconds;
int main() { TimeTriggerManager m; int a=0,b=0; m.addTrigger(TimeType{1.0},ms{5000},[&]{ a++; if (a==1) m.addTrigger(TimeType{1.0},ms{10},[&]{ b++; }); }); m.triggerReady(TimeType{7.0}); CHECK(a==1); CHECK(b==1); m.triggerReady(TimeType{8.0}); CHECK(a==1); CHECK(b==2); DEMO_END }
''',srcs=['vt/timetrigger/time_trigger_manager.cc'],flags='-fno-access-control')
S('c21-removed-lost','C21','two triggers removed, one of them not due yet when the other is dropped','dropping one removed trigger forgets the removal of all others, which run again',
 [('src/vt/timetrigger/time_trigger_manager.cc','''        removed_.erase(iter);''','''        removed_.clear();''')],
 '''#include "demo.h"
#include "vt/timetrigger/time_trigger_manager.h"
using namespace vt; using namespace vt::timetrigger; using ms=std::chrono::milliseconds;
int main() { TimeTriggerManager m; int a=0,b=0; int x=m.addTrigger(TimeType{1.0},ms{1000},[&]{ a++; }); int y=m.addTrigger(TimeType{1.0},ms{5000},[&]{ b++; }); m.removeTrigger(x); m.removeTrigger(y); m.triggerReady(TimeType{3.0}); m.triggerReady(TimeType{9.0}); CHECK(a==0); CHECK(b==0); DEMO_END }
''',srcs=['vt/timetrigger/time_trigger_manager.cc'],flags='-fno-access-control')
S('c23-skip','C23','a pipe with several listeners of which an earlier one uses up its last use','when a listener is used up, the next listener of the pipe does not get the signal',
 [('src/vt/pipe/signal/signal_holder.impl.h','''        liter = removeListener(iter,liter);
      } else {
        liter++;
      }''','''        liter = removeListener(iter,liter);
        if (liter == iter->second.end()) {
          break;
        }
      }
      liter++;''')],
 '''#include "demo.h"
#include "vt/pipe/signal/signal_holder.h"
#include "vt/pipe/callback/anon/callback_anon_listener.h"
#include "vt/pipe/signal/signal_holder.impl.h"
#include "vt/pipe/callback/anon/callback_anon_listener.impl.h"
using namespace vt::pipe; using Sig=signal::Signal<int>; using Lis=callback::AnonListener<Sig>;
int main() { signal::SignalHolder<Sig> h; static int a,b; h.addListener(5,std::make_unique<Lis>([](int*){ a++; },false,1)); h.addListener(5,std::make_unique<Lis>([](int*){ b++; },true,1)); int d=0; h.deliverAll(5,&d); CHECK(a==1); CHECK(b==1); h.deliverAll(5,&d); CHECK(a==1); CHECK(b==2); DEMO_END }
''',srcs=['vt/pipe/signal/signal_holder.cc'],flags='-fno-access-control')
S('c23-group','C23','a callback to all objects of a group triggered with a message that was sent on a pipe before (its envelope names the pipe)','the broadcast keeps the group of the message it arrived in and goes to that group only',
 [('src/vt/pipe/callback/objgroup_bcast/callback_objgroup_bcast.impl.h','''  envelopeSetGroup(msg->env, default_group);''','''  if (envelopeGetGroup(msg->env) == no_group) {
    envelopeSetGroup(msg->env, default_group);
  }''')],
 '''#include "pipe_demo.h"
int main() { init(1); auto* x=msg(); envelopeSetGroup(x->env,4711); Callback<TMsg> c(cbu::RawBcastObjGrpTag,PipeType{5},HandlerType{9},ObjGroupProxyType{3}); c.send(x); CHECK(nsent==1); CHECK(envelopeGetGroup(x->env)==default_group); DEMO_END }
''',env='pipe')
S('c23-local','C23','a callback to a handler, sent without arguments on the very node it names, inside an epoch','the handler runs outside the epoch in which the callback was sent, which may end before it',
 [('src/vt/pipe/callback/handler_send/callback_send_tl.cc','''    runnable::makeRunnableVoid(true, handler_, this_node)
      .withTDEpoch(theMsg()->getEpoch())
      .enqueue();''','''    runnable::makeRunnableVoid(true, handler_, this_node).enqueue();''')],
 '''#include "pipe_demo.h"
int main() { init(1); cur_epoch=77; Callback<TMsg> c(cbu::RawSendMsgTag,PipeType{5},HandlerType{9},NodeType{1}); c.sendVoid(); CHECK(nruns==1); CHECK(runs[0].td==2); CHECK(runs[0].ep==77); DEMO_END }
''',env='pipe')
COMP='''#include "demo.h"
#include "vt/runtime/component/component_pack.h"
#include <csignal>
using namespace vt; using namespace vt::runtime::component; static int built[4],order[8],n;
template <int K> struct C : Component<C<K>> { C() { built[K]++; order[n++]=K; } std::string name() override { return std::string(1,(char)('A'+K)); } };
'''
S('c22-cycle','C22','components whose startup dependencies form a cycle','the cycle is no longer refused: a component is built before one it depends on',
 [('src/vt/runtime/component/component_pack.cc','''  visiting[v] = true;
''','''  visiting[v] = true;
  visited[v] = true;
'''),('src/vt/runtime/component/component_pack.cc','''  visiting[v] = false;
  visited[v] = true;
''','''  visiting[v] = false;
''')],
 COMP+'''namespace vt { void abort(std::string const, int32_t const) { std::fflush(stdout); _exit(0); } }
int main() { std::signal(SIGABRT,[](int){ _exit(0); }); std::signal(SIGSEGV,[](int){ _exit(0); }); std::signal(SIGTRAP,[](int){ _exit(0); }); ComponentPack p; p.registerComponent<C<0>>(nullptr,StartupDeps<C<1>>{},RuntimeDeps<>{}); p.registerComponent<C<1>>(nullptr,StartupDeps<C<2>>{},RuntimeDeps<>{}); p.registerComponent<C<2>>(nullptr,StartupDeps<C<0>>{},RuntimeDeps<>{}); p.add<C<0>>(); p.construct(); std::printf("cycle accepted\\n"); std::fflush(stdout); _exit(1); }
''',srcs='vt/pipe/signal/signal_holder.cc vt/runtime/component/component_pack.cc vt/runtime/component/diagnostic.cc vt/runtime/component/diagnostic_value.cc'.split(),flags='-fno-access-control')
S('c22-runtime-chain','C22','a component needed at run time only by one that is itself needed at run time only','components needed only through a chain of runtime dependencies are not built',
 [('src/vt/runtime/component/component_pack.cc','''          added_components_.insert(rd);
          inserted = true;''','''          added_components_.insert(rd);
          inserted = inserted or not registry::getStartupDeps(rd).empty();''')],
 COMP+'''int main() { { ComponentPack p; p.registerComponent<C<0>>(nullptr,StartupDeps<>{},RuntimeDeps<C<1>>{}); p.registerComponent<C<1>>(nullptr,StartupDeps<>{},RuntimeDeps<C<2>>{}); p.registerComponent<C<2>>(nullptr,StartupDeps<>{},RuntimeDeps<C<3>>{}); p.registerComponent<C<3>>(nullptr,StartupDeps<>{},RuntimeDeps<>{}); p.add<C<0>>(); p.construct(); for (int k=0;k<4;k++) CHECK(built[k]==1); } DEMO_END }
''',srcs='vt/pipe/signal/signal_holder.cc vt/runtime/component/component_pack.cc vt/runtime/component/diagnostic.cc vt/runtime/component/diagnostic_value.cc'.split(),flags='-fno-access-control')
RUN='#include "run_demo.h"\n'
S('c17-nested-task','C17','a task run directly inside another task, after which the outer one looks at its task','the outer task is no longer the current one after an inner task ran: sends from it lose their sender and their load',
 [('src/vt/context/runnable_context/set_context.cc','''  ContextAttorney::setTask(prev_task_);
}

void SetContext::suspend() {''','''  ContextAttorney::setTask(nullptr);
}

void SetContext::suspend() {''')],
 RUN+'''static RunnableNew* outer; static bool back;
int main() { init(); auto m=makeMessage<TMsg>(); static auto n=makeMessage<TMsg>(); auto k=makeRunnable(m,false,general(0),5); outer=k.getRunnableImpl(); inside=[]{ makeRunnable(n,false,general(1),6).run(); back=theContext()->getTask()==outer; }; k.run(); CHECK(ran==2); CHECK(back); DEMO_END }
''',env='run')
S('c17-term-message-counted','C17','a termination-control message that is run or queued while carrying an epoch','the epoch of the message is taken even though it is a termination message: the detector waits for its own messages',
 [('src/vt/runnable/make_runnable.h','''    if (not is_term) {
      impl_->addContextTD(msg_);''','''    if (not is_term or msg_ != nullptr) {
      impl_->addContextTD(msg_);''')],
 RUN+'''int main() { init(); auto m=makeMessage<TMsg>(); setTermType(m->env); makeRunnable(m,false,general(1),2).withTDEpochFromMsg(true).run(); CHECK(ran==1); CHECK(nunits==0); DEMO_END }
''',env='run')
S('c17-early-release','C17','a task that produces more work in its epoch while it runs, when nothing else holds the epoch','a task gives its unit back before it runs: its epoch can end although the task is still running',
 [('src/vt/context/runnable_context/td.cc','''  theTerm()->pushEpoch(ep_);

#if vt_check_enabled(fcontext)
  auto& epoch_stack = theTerm()->getEpochStack();

  base_epoch''','''  theTerm()->pushEpoch(ep_);
  theTerm()->consume(ep_);

#if vt_check_enabled(fcontext)
  auto& epoch_stack = theTerm()->getEpochStack();

  base_epoch'''),('src/vt/context/runnable_context/td.cc','''  theTerm()->popEpoch(ep_);
  theTerm()->consume(ep_);
''','''  theTerm()->popEpoch(ep_);
''')],
 RUN+'''static int64_t held=-1;
int main() { init(); auto m=makeMessage<TMsg>(); inside=[]{ held=balance(77); }; makeRunnable(m,false,general(1),2).withTDEpoch(EpochType{77}).run(); CHECK(held==1); CHECK(balance(77)==0); DEMO_END }
''',env='run')
S('c26-nested-mpi','C26','a unit that runs the scheduler itself (nested unit) and goes on afterwards','MPI is opened to the rest of the outer unit once a nested unit ended',
 [('src/vt/scheduler/scheduler.cc','''#if vt_check_enabled(mpi_access_guards)
  if (action_depth_ == 0) {
    vt::runtime::ScopedMPIAccess::prohibitByDefault(false);
  }
#endif''','''#if vt_check_enabled(mpi_access_guards)
  vt::runtime::ScopedMPIAccess::prohibitByDefault(false);
#endif''')],
 RUN+'''static bool open_=true;
int main() { init(); auto& s=*theSched(); s.enqueue(ActionType([]{ look(); auto& t=*theSched(); t.enqueue(ActionType([]{ look(); })); t.runSchedulerOnceImpl(false); open_=runtime::ScopedMPIAccess::mpiCallsAllowed(); })); s.runSchedulerOnceImpl(false); CHECK(ran==2); CHECK(!open_); CHECK(runtime::ScopedMPIAccess::mpiCallsAllowed()); DEMO_END }
''',env='run')
S('c26-idle-minus-term','C26','only termination messages queued, then ordinary work arrives behind them','idleness apart from termination is said to end although only termination messages are waiting, and its end is not announced when work arrives',
 [('src/vt/scheduler/scheduler.cc','''    if (is_idle_minus_term and num_term_msgs_ not_eq work_queue_.size()) {''','''    if (is_idle_minus_term and num_term_msgs_ == 0) {''')],
 RUN+'''static int ended;
int main() { init(); auto& s=*theSched(); s.registerTrigger(sched::SchedulerEvent::EndIdleMinusTerm,[]{ ended++; }); s.enqueue(true,ActionType([]{ look(); })); s.enqueue(ActionType([]{ CHECK(ended==1); look(); })); s.enqueue(true,ActionType([]{ look(); })); s.runSchedulerOnceImpl(false); CHECK(ended==1); s.runSchedulerOnceImpl(false); CHECK(ran==2); DEMO_END }
''',env='run')
S('c26-progress-count','C26','progress asked for after a number of units','units run since the last progress are counted across it: progress is made after every unit instead of after as many as asked for',
 [('src/vt/scheduler/scheduler.cc','''    processed_after_last_progress_ = 0;
    last_progress_time_''','''    processed_after_last_progress_ -= work_queue_.empty() ? processed_after_last_progress_ : 1;
    last_progress_time_''')],
 RUN+'''int main() { init(); auto& s=*theSched(); theConfig()->vt_sched_progress_han=3; s.special_progress_=true; for (int k=0;k<9;k++) s.enqueue(ActionType([]{ look(); })); for (int k=0;k<9;k++) s.runSchedulerOnceImpl(false); CHECK(ran==9); std::printf("%d\\n",Poll::polled); CHECK(Poll::polled==2); DEMO_END }
''',env='run')
LOC='#include "loc_demo.h"\n'
L_='src/vt/topos/location/location.impl.h'
S('c24-kept-epoch','C24','a message that reaches the home before the element exists anywhere','a message kept at the home no longer holds its epoch open: termination can be found before it runs',
 [(L_,"""    theTerm()->produce(epoch);

    auto trigger_msg_handler_action""","""    auto trigger_msg_handler_action"""),(L_,"""      theMsg()->pushEpoch(epoch);
      trigger_msg_handler_action(id);
      theMsg()->popEpoch(epoch);
      theTerm()->consume(epoch);
""","""      theMsg()->pushEpoch(epoch);
      trigger_msg_handler_action(id);
      theMsg()->popEpoch(epoch);
"""),(L_,"""          routeMsgNode<MessageT>(id_, home_node, resolved,msg);
        }
        theMsg()->popEpoch(epoch);
        theTerm()->consume(epoch);
""","""          routeMsgNode<MessageT>(id_, home_node, resolved,msg);
        }
        theMsg()->popEpoch(epoch);
""")],
 LOC+"""int main() { msg_ep=77; say(1,5,0); drain(); CHECK(nruns==0); CHECK(balance(77)==1); go(2).registerEntity(5,0); drain(); CHECK(nruns==1&&runs[0].at==2); CHECK(balance(77)==0); DEMO_END }
""",env='loc')
S('c24-first-asker','C24','two nodes whose messages were passed on by the same node before it knows where the element is','of several nodes that asked, only one is told where the element is',
 [(L_,"""      sendEagerUpdate(id, ask_node, home_node, deliver_node);
    }
    loc_asks_.erase(ask_iter);""","""      sendEagerUpdate(id, ask_node, home_node, deliver_node);
      break;
    }
    loc_asks_.erase(ask_iter);""")],
 LOC+"""int main() { go(3).registerEntity(5,0); drain(); say(1,5,0); say(2,5,0); drain(); CHECK(nruns==2); CHECK(at[1]->recs_.exists(5)); CHECK(at[2]->recs_.exists(5)); DEMO_END }
""",env='loc')
S('c24-back-again','C24','an element that comes back to a node that still has a record of it','the home is not told of a migration to a node that had already seen the element, and keeps sending its messages to where it was',
 [(L_,"""  local_registered_.insert(id);

  recs_.insert(id, home,""","""  local_registered_.insert(id);

  bool const seen = migrated and recs_.exists(id);
  recs_.insert(id, home,"""),(L_,"""  if (home != this_node) {
    vt_debug_print(
      normal, location,
      "EntityLocationCoord: registerEntity: updating""","""  if (home != this_node and not seen) {
    vt_debug_print(
      normal, location,
      "EntityLocationCoord: registerEntity: updating""")],
 LOC+"""int main() { go(1).registerEntity(5,0); drain(); go(1).entityEmigrated(5,2); go(2).entityImmigrated(5,0,1); drain(); go(2).entityEmigrated(5,1); go(1).entityImmigrated(5,0,2); drain(); CHECK(at[0]==nullptr||at[0]->recs_.get(5).getRemoteNode()==1); DEMO_END }
""",env='loc')
S('c24-cache-recency','C24','more elements than the cache holds, one of them in steady use','an entry whose location is updated keeps its old rank in the cache and is evicted although just used',
 [('src/vt/topos/location/cache/cache.impl.h',"""    std::get<1>(*iter->second) = value;
    cache_.splice(cache_.cbegin(), cache_, iter->second);""","""    std::get<1>(*iter->second) = value;
    cache_.splice(cache_.cend(), cache_, iter->second);""")],
 LOC+"""int main() { go(0); LocationCache<int,int> c(3); c.insert(1,10); c.insert(2,20); c.insert(3,30); c.insert(1,11); c.insert(4,40); CHECK(c.exists(1)&&c.get(1)==11); CHECK(!c.exists(2)); CHECK(c.exists(3)&&c.exists(4)); DEMO_END }
""",env='loc')
S('c24-large-kept','C24','a message too large to travel along, to an element whose place this node does not know yet','a large message that waits for the answer of the home does not run in its own epoch',
 [(L_,"""      theMsg()->pushEpoch(epoch);
      routeMsgNode<MessageT>(
        msg->getEntity(), msg->getHomeNode(), node, msg
      );
      theMsg()->popEpoch(epoch);
      theTerm()->consume(epoch);""","""      theTerm()->consume(epoch);
      routeMsgNode<MessageT>(
        msg->getEntity(), msg->getHomeNode(), node, msg
      );""")],
 LOC+"""int main() { msg_ep=77; Loc& l=go(1); auto m=makeMessage<Big>(); m->setHandler(70); l.routeMsg(5,1,m); CHECK(balance(77)==1); CHECK(nruns==0); l.registerEntity(5,1); CHECK(nruns==1); CHECK(balance(77)==0); CHECK(!dips(77)); DEMO_END }
""",env='loc')
LBD_='src/vt/elm/elm_lb_data.cc'; MOD_='src/vt/vrt/collection/balance/model/'
ELMS=['vt/elm/elm_lb_data.cc','vt/elm/elm_id.cc','vt/elm/elm_id_bits.cc','vt/context/context.cc','vt/timing/timing.cc']
LBH='#define DEMO_CONTEXT\n'+PRIV+'#include "vt/elm/elm_lb_data.h"\n#include "vt/timing/timing.h"\nextern "C" double MPI_Wtime() { return 0; }\nusing namespace vt; using namespace vt::elm;\n'
S('c25-shared-edge','C25','an element that writes two shared blocks with the same home','communication with different shared blocks of one home is accounted to one of them',
 [('src/vt/elm/elm_comm.h','      k.cat_   == cat_   and k.shared_id_ == shared_id_;','      k.cat_   == cat_;')],
 '#include <unordered_map>\n#include "demo.h"\n#include "vt/config.h"\n#include "vt/elm/elm_comm.h"\nusing namespace vt::elm; using K=CommKey;\nint main() { K a(K::WriteSharedTag{},1,3), b(K::WriteSharedTag{},1,4), c(K::WriteSharedTag{},1,3); CHECK(!(a==b)); CHECK(a==c); DEMO_END }\n',['vt/elm/elm_id.cc','vt/elm/elm_id_bits.cc'])
S('c25-stop-twice','C25','a task of an element stopped a second time','the time of a task counts again each time its end is recorded',
 [(LBD_,'    cur_time_started_ = false;\n    addTime(total_time.seconds());','    addTime(total_time.seconds());')],
 LBH+'int main() { demo_context(0,1); ElementLBData d; d.start(TimeType{1.}); d.stop(TimeType{3.}); d.stop(TimeType{9.}); CHECK(d.getLoad(0)==2.); DEMO_END }\n',ELMS)
S('c25-release-early','C25','a look back longer than the phases done so far, by exactly the current phase','the first phase is not dropped when it becomes too old',
 [(LBD_,'  if (phase >= look_back) {','  if (phase > look_back) {')],
 LBH+'struct LD : ElementLBData { using ElementLBData::releaseLBDataFromUnneededPhases; };\nint main() { demo_context(0,1); LD d; d.addTime(1.); d.setPhase(2); d.releaseLBDataFromUnneededPhases(2,2); CHECK(d.getLoad(0)==0.); DEMO_END }\n',ELMS)
S('c25-subphase-loads','C25','user-set load in a phase that already has recorded subphases','loads set by the user leave the subphases recorded before in place when they are more',
 [(LBD_,'  subphase_timings_[cur_phase_] = subphaseLoads;','  auto& recorded = subphase_timings_[cur_phase_];\n  if (recorded.size() < subphaseLoads.size()) {\n    recorded.resize(subphaseLoads.size());\n  }\n  std::copy(subphaseLoads.begin(), subphaseLoads.end(), recorded.begin());')],
 LBH+'int main() { demo_context(0,1); ElementLBData d; d.setSubPhase(2); d.addTime(5.); d.setTime(3.,{1.,2.}); CHECK(d.getSubphaseTimes(0).size()==2); CHECK(d.getLoad(0)==3.); DEMO_END }\n',ELMS)
MODH='#define DEMO_CONTEXT\n'+PRIV+'''#include "vt/vrt/collection/balance/model/proposed_reassignment.h"
#include "vt/vrt/collection/balance/model/per_collection.h"
#include "vt/vrt/collection/balance/model/multiple_phases.h"
#include "vt/vrt/collection/balance/model/weighted_messages.h"
#include "vt/vrt/collection/balance/node_lb_data.h"
using namespace vt; using namespace vt::vrt::collection::balance; using Id=ElementIDStruct;
alignas(64) static unsigned char nlb[sizeof(NodeLBData)]; namespace vt { NodeLBData* theNodeLBData() { return reinterpret_cast<NodeLBData*>(nlb); } }
VirtualProxyType NodeLBData::getCollectionProxyForElement(Id i) const { return i.id; }
struct Any : LoadModel { double v=1.; unsigned past=0; mutable std::vector<int> asked; LoadMapType m; void setLoads(std::unordered_map<PhaseType,LoadMapType> const*,std::unordered_map<PhaseType,CommMapType> const*,std::unordered_map<PhaseType,DataMapType> const*) override {} void updateLoads(PhaseType) override {} LoadType getModeledLoad(Id,PhaseOffset w) const override { asked.push_back(w.phases); return v; } unsigned getNumPastPhasesNeeded(unsigned l) const override { return l>past?l:past; } ObjectIterator begin() const override { return {std::make_unique<LoadMapObjectIterator>(m.cbegin(),m.cend())}; } int getNumObjects() const override { return m.size(); } unsigned getNumCompletedPhases() const override { return 4; } int getNumSubphases() const override { return 1; } };
'''
MSRC=['vt/vrt/collection/balance/model/'+x+'.cc' for x in ('composed_model','proposed_reassignment','per_collection','multiple_phases','weighted_messages')]+['vt/vrt/collection/balance/lb_common.cc','vt/context/context.cc','vt/elm/elm_id.cc','vt/elm/elm_id_bits.cc']
S('c25-demanding','C25','several collections with models of their own that look back differently far','only the history that one of the models needs is kept, not what the most demanding one needs',
 [(MOD_+'per_collection.cc','    needed = std::max(needed, m.second->getNumPastPhasesNeeded(look_back));','    needed = m.second->getNumPastPhasesNeeded(look_back);')],
 MODH+'int main() { demo_context(3,8); auto b=std::make_shared<Any>(); b->past=9; auto o=std::make_shared<Any>(); o->past=2; PerCollection m{b}; m.addModel(5,o); CHECK(m.getNumPastPhasesNeeded(1)==9); DEMO_END }\n',MSRC)
S('c25-stays-here','C25','a proposed assignment under which an object leaves and comes back','an object proposed to leave and arrive at the same node is counted twice',
 [(MOD_+'proposed_reassignment.cc','          return reassignment_->depart_.find(elm) == reassignment_->depart_.end();','          return reassignment_->depart_.find(elm) == reassignment_->depart_.end() or\n            reassignment_->arrive_.find(elm) != reassignment_->arrive_.end();')],
 MODH+'int main() { demo_context(3,8); auto b=std::make_shared<Any>(); Id a{1,3}, c{2,3}; b->m[a]; b->m[c]; auto r=std::make_shared<Reassignment>(); r->node_=3; r->depart_[a]=3; r->arrive_[a]; ProposedReassignment m{b,r}; int n=0; for (auto i : m) { (void)i; n++; } CHECK(n==2); DEMO_END }\n',MSRC)
S('c25-phase-block','C25','a model of several phases in one, asked for a phase further ahead','the blocks of phases overlap: each starts one phase after the one before',
 [(MOD_+'multiple_phases.cc','PhaseOffset p{future_phase_block_size_*when.phases + i,','PhaseOffset p{when.phases + i,')],
 MODH+'int main() { demo_context(3,8); auto b=std::make_shared<Any>(); MultiplePhases m{b,3}; m.getModeledLoad(Id{1,3},PhaseOffset{1,PhaseOffset::WHOLE_PHASE}); CHECK(b->asked.size()==3); CHECK(b->asked[0]==3 && b->asked[2]==5); DEMO_END }\n',MSRC)
S('c25-broadcast-weight','C25','broadcasts recorded next to messages between elements','broadcasts are weighed as if they were messages between two elements',
 [(MOD_+'weighted_messages.cc','      c.first.commCategory() == elm::CommCategory::SendRecv and','      (c.first.commCategory() == elm::CommCategory::SendRecv or\n       c.first.commCategory() == elm::CommCategory::Broadcast) and')],
 MODH+'int main() { demo_context(3,8); auto b=std::make_shared<Any>(); WeightedMessages m{b,2.,1.}; using K=elm::CommKey; std::unordered_map<PhaseType,CommMapType> c; c[3][K(K::SendRecvTag{},Id{1,3},Id{2,4},true)]=elm::CommVolume{8.,1}; m.setLoads(nullptr,&c,nullptr); CHECK(m.getModeledComm(Id{2,4},PhaseOffset{-1,PhaseOffset::WHOLE_PHASE})==0.); DEMO_END }\n',MSRC)
RLB='src/vt/vrt/collection/balance/read_lb.cc'; LBM='src/vt/vrt/collection/balance/lb_invoke/lb_manager.cc'
RLH=PRIV+'#include "vt/vrt/collection/balance/read_lb.h"\n#include <fstream>\nusing namespace vt; using namespace vt::vrt::collection::balance; using R=ReadLBConfig;\n'
RSRC=['vt/vrt/collection/balance/read_lb.cc','vt/vrt/collection/balance/lb_type.cc']
RPUT='static void every(ConfigIndex m, char const* n) { R::config_mod_.emplace(m,ConfigEntry{m,n,{}}); R::config_prec_.push_back(m); }\n'
S('c18-order','C18','two repeated lines that both match, the later one in the file with the smaller interval','of two repeated lines that match a phase the one with the smallest interval runs, not the first in the file',
 [(RLB,'''  for (auto mod : config_prec_) {
    auto iter = config_mod_.find(mod);''','''  for (auto const& mod_entry : config_mod_) {
    auto const mod = mod_entry.first;
    auto iter = config_mod_.find(mod);''')],
 RLH+RPUT+'int main() { every(10,"RotateLB"); every(5,"GreedyLB"); CHECK(R::getLB(20)==LBType::RotateLB); CHECK(R::getLB(5)==LBType::GreedyLB); DEMO_END }\n',RSRC)
S('c18-exact-phase-zero','C18','a line for phase 0 and a repeated line','a line for phase zero is taken for no line, and the repeated one runs',
 [(RLB,'  if (config_iter != config_exact_.end()) {','  if (idx != 0 and config_iter != config_exact_.end()) {')],
 RLH+RPUT+'int main() { every(1,"RotateLB"); R::config_exact_.emplace(0,ConfigEntry{0,"NoLB",{}}); CHECK(R::getLB(0)==LBType::NoLB); DEMO_END }\n',RSRC)
S('c18-twice','C18','a file that repeats the line of a phase','the second of two lines for one phase is ignored silently',
 [(RLB,'    if (map->find(mod) != map->end()) {','    if (is_mod and map->find(mod) != map->end()) {')],
 RLH+'#include <sys/wait.h>\n#include <sys/mman.h>\nint main() { int fd=memfd_create("s",0); char t[]="3 GreedyLB\\n3 RotateLB\\n"; if (write(fd,t,sizeof t-1)<0) return 2; std::string p="/proc/self/fd/"+std::to_string(fd); pid_t c=fork(); if (!c) { if (!freopen("/dev/null","w",stderr)) _exit(9); R::openConfig(p); _exit(0); } int st; waitpid(c,&st,0); CHECK(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)); DEMO_END }\n',RSRC)
S('c18-clear','C18','a specification cleared and another one read','lines that repeat survive clearing the specification in the order list, and shadow later ones',
 [(RLB,'  config_exact_.clear();\n  config_prec_.clear();','  config_exact_.clear();')],
 RLH+RPUT+'int main() { every(2,"RotateLB"); R::clear(); every(4,"GreedyLB"); every(2,"RotateLB"); CHECK(R::getLB(4)==LBType::GreedyLB); DEMO_END }\n',RSRC)
S('c18-unreadable','C18','a boolean parameter with a value that is neither true nor false','an unreadable boolean parameter counts as false instead of its default',
 [('src/vt/vrt/collection/balance/read_lb.h','''    if (val == "0" or val == "false" or val == "f") {
      return false;
    }
    return default_;''','''    if (val == "" ) {
      return default_;
    }
    return false;''')],
 RLH+'int main() { std::map<std::string,std::string> p; p["x"]="yes"; ConfigEntry e{1,"GreedyLB",p}; CHECK(e.getOrDefault<bool>("x",true)); DEMO_END }\n',RSRC)
BLB='src/vt/vrt/collection/balance/baselb/baselb.cc'; GLB='src/vt/vrt/collection/balance/greedylb/greedylb.cc'; LRR='src/vt/vrt/collection/balance/lb_data_restart_reader.cc'
LBD='#include "lb_demo.h"\n'
S('c28-one-epoch','C28','a transfer of an object asked for on a node on which the object is not','nodes are told what arrives before all departures are known: an object moved on request of another node arrives unannounced',
 [(BLB,'  runInEpochCollective("BaseLB -> sendMigrateOthers", [&]{','  auto send_migrate_others = [&]{'),
  (BLB,'''      >(vec);
    }
  });

  // At this point''','''      >(vec);
    }
  };
  send_migrate_others();

  // At this point''')],
 LBD+'''static Strat* s; static Id mine, theirs;
static void others(int k) { if (k==1) s->finalize(2); bool told=false; for (int i=0;i<nsent;i++) told|=sent[i].stage==k && sent[i].fn==tag<&lb::BaseLB::notifyCurrentHostNodeOfObjectsDeparting>(); if (told) { lb::BaseLB::ObjDestinationListType l; l.push_back(std::make_tuple(mine,NodeType(2))); lb::TransferMsg<lb::BaseLB::ObjDestinationListType> m(l); s->notifyCurrentHostNodeOfObjectsDeparting(&m); } }
int main() { here(0,3); s=new Strat(); mine=obj(5,0,0); theirs=obj(6,1,1); s->ask.push_back({theirs,NodeType(2)}); arrive=others; lb::BaseLB::StatisticMapType st; lb::BaseLB::ElementCommType c; DataMapType d; Model m; auto r=s->startLB(0,{},&m,st,c,0,d);
  CHECK(r->depart_.count(mine)==1); int n=0; for (int i=0;i<nsent;i++) n+=sent[i].fn==tag<&lb::BaseLB::notifyNewHostNodeOfObjectsArriving>() && sent[i].node==2; CHECK(n==1); DEMO_END }
''',env='lb')
S('c28-pull','C28','a balancer that asks for an object of another node to come to its own node','an object asked to come to the node that asks for it is taken to be there already',
 [(BLB,'  if (obj_id.curr_node != to || theConfig()->vt_lb_self_migration) {','  if (theContext()->getNode() != to || theConfig()->vt_lb_self_migration) {')],
 LBD+'int main() { here(0,3); Strat s; s.migrateObjectTo(obj(6,1,1),0); CHECK(s.getTransfers().size()==1); s.migrateObjectTo(obj(7,0,0),0); CHECK(s.getTransfers().size()==1); DEMO_END }\n',env='lb')
S('c28-subphases','C28','a moving object with more than one subphase and user-visible raw loads','the raw loads announced for the subphases of an arriving object are its modelled ones',
 [('src/vt/vrt/collection/balance/lb_common.cc','      ret.subphase_loads.push_back(model->getRawLoad(object, {when.phases, i}));','      ret.subphase_loads.push_back(model->getModeledLoad(object, {when.phases, i}));')],
 LBD+'''static Strat* s; static void others(int k) { if (k==1) s->finalize(1); }
int main() { here(0,3); s=new Strat(); Id a=obj(5,0,0); s->ask.push_back({a,NodeType(1)}); arrive=others; lb::BaseLB::StatisticMapType st; lb::BaseLB::ElementCommType c; DataMapType d; Model m; s->startLB(0,{},&m,st,c,0,d); CHECK(nsent==1); auto* t=static_cast<lb::TransferMsg<lb::BaseLB::ObjLoadListType>*>(sent[0].msg); auto const& e=t->getTransfer()[0]; CHECK(std::get<1>(e).whole_phase_load==100.); CHECK(std::get<2>(e).whole_phase_load==7.); CHECK(std::get<2>(e).subphase_loads[1]==9.); CHECK(std::get<1>(e).subphase_loads[1]==1.); DEMO_END }
''',env='lb')
S('c28-scatter-size','C28','the node that most objects leave, told by scatter','the piece scattered to each node has no room for its number of objects: the last object of the busiest node is overwritten or lost',
 [(GLB,'max_recs = std::max(max_recs, node_transfer[cur_node].size() + 1);','max_recs = std::max(max_recs, node_transfer[cur_node].size());')],
 LBD+'''static G* gs[2]; static void go(int k) { here(k,2); G::scatter_proxy.here=gs[k]; objgroup::proxy::vtc_Proxy<G>::here=gs[k]; }
int main() { here(0,2); gs[0]=new G(); gs[1]=new G(); at_node=go; go(0); lb::GreedyLBTypes::ObjSampleType o; o[10].push_back(obj(5,0,0)); o[10].push_back(obj(6,0,0)); lb::GreedyLBTypes::LoadProfileType p; p[0]=100; p[1]=0; gs[0]->runBalancer(std::move(o),std::move(p)); CHECK(nscatter==1); CHECK(gs[0]->getTransfers().size()==2); CHECK(piece_size>=3*sizeof(Id)); DEMO_END }
''',env='lb')
S('c28-phases-mixed','C28','an element that moves in two phases, heard of at its home in mixed order','the two ends of moves of one element in different phases are taken together',
 [(LRR,'  coordinate_[msg->phase][msg->elm].arrive = m;\n  checkBothEnds(coordinate_[msg->phase][msg->elm]);','  auto& coord = coordinate_[msg->phase][msg->elm];\n  coord.arrive = m;\n  for (auto&& by_phase : coordinate_) {\n    auto other = by_phase.second.find(msg->elm);\n    if (other != by_phase.second.end() and other->second.depart != nullptr) {\n      coord.depart = other->second.depart;\n    }\n  }\n  checkBothEnds(coord);')],
 LBD+'''int main() { here(0,3); RD r; Id i=obj(5,0,0); auto* d=::new RD::DepartMsg(1,1,i); auto* a=::new RD::ArriveMsg(2,2,i); envelopeSetRef(d->env,1); envelopeSetRef(a->env,1); r.departing(d); r.arriving(a); CHECK(nsent==0); auto* b=::new RD::ArriveMsg(0,1,i); envelopeSetRef(b->env,1); r.arriving(b); CHECK(nsent==1 && sent[0].node==0 && static_cast<RD::UpdateMsg*>(sent[0].msg)->curr_node==1); DEMO_END }
''',env='lb')
S('c28-last-unmovable','C28','a node whose lightest class of load holds only objects already offered','offering to the root stops at the first empty class of load, with heavier objects left above the threshold',
 [(GLB,'''  while (this_load > threshold && cur_item != obj_sample.end()) {
    if (cur_item->second.size() != 0) {
      loadOverBin(cur_item->first, cur_item->second);
    } else {
      cur_item++;
    }
  }''','''  while (this_load > threshold && cur_item != obj_sample.end()) {
    if (cur_item->second.size() != 0) {
      loadOverBin(cur_item->first, cur_item->second);
    } else {
      break;
    }
  }''')],
 LBD+'''static Id q[2]; struct It : ObjectIteratorImpl { int i=0; void operator++() override { i++; } Id operator*() const override { return q[i]; } bool isValid() const override { return i<2; } };
struct Two : Model { ObjectIterator begin() const override { return {std::make_unique<It>()}; } LoadType getModeledLoad(Id o, PhaseOffset) const override { return o.id==q[0].id?0.001:0.5; } };
int main() { here(1,3); q[0]=obj(5,1,1); q[1]=obj(6,1,1); G g; g.load_model_=new Two(); lb::BaseLB::StatisticMapType s; auto& v=s[lb::Statistic::Rank_load_modeled]; v[lb::StatisticQuantity::max]=1; v[lb::StatisticQuantity::avg]=0.02; v[lb::StatisticQuantity::sum]=0.06; v[lb::StatisticQuantity::imb]=0.5; g.base_stats_=&s; g.min_threshold=0.5; g.max_threshold=1.; g.auto_threshold=true; g.runLB(0.501); CHECK(nreduced==1); int n=0; for (auto& b : static_cast<lb::GreedyPayload*>(reduced[0].val)->getSample()) n+=b.second.size(); CHECK(n==2); DEMO_END }
''',env='lb')
