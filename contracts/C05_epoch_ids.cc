// Epoch identifiers: rooted and collective epochs, archetypes, sequence numbers.
// @source vt/epoch/epoch_manip.cc vt/context/context.cc
// @assume sequence numbers fit their field: 45 bits for rooted epochs, 61 bits for collective ones; a rooted epoch names a real node
#include "vtc.h"
#include "vtc_ctx.h"
#include "vt/epoch/epoch_manip.h"
using namespace vt; using namespace vt::epoch;
using EM = EpochManip;
static eEpochCategory anyCat(const char* n) { return static_cast<eEpochCategory>(vtc::any_in<int8_t>(n,0,3)); }
static uint64_t anySeq(const char* n, bool r) { auto s=vtc::any<uint64_t>(n); REQUIRES(s < (r ? 1ull<<epoch_seq_root_num_bits : 1ull<<epoch_seq_coll_num_bits)); return s; }
static NodeType anyNode(const char* n) { auto x=vtc::any<NodeType>(n); REQUIRES(x!=uninitialized_destination); return x; }
CONTRACT(rooted_generate) {
  auto n=anyNode("node"); auto c=anyCat("cat");
  auto e=EM::generateEpoch(true,n,c);
  ENSURES("rooted", EM::isRooted(e));
  ENSURES("rooted-node", EM::node(e)==n);
  ENSURES("rooted-category", EM::category(e)==c);
  ENSURES("rooted-archetype-seq-zero", EM::seq(e)==0);
  auto s=anySeq("seq",true); EM::setSeq(e,s);
  ENSURES("rooted-seq", EM::seq(e)==s);
  ENSURES("rooted-seq-framed", (EM::isRooted(e))&(EM::node(e)==n)&(EM::category(e)==c));
}
CONTRACT(coll_generate) {
  auto c=anyCat("cat");
  auto e=EM::generateEpoch(false,vtc::any<NodeType>("ignored"),c);
  ENSURES("collective", !EM::isRooted(e));
  ENSURES("collective-category", EM::category(e)==c);
  ENSURES("collective-archetype-seq-zero", EM::seq(e)==0);
  auto s=anySeq("seq",false); EM::setSeq(e,s);
  ENSURES("collective-seq", EM::seq(e)==s);
  ENSURES("collective-seq-framed", (!EM::isRooted(e))&(EM::category(e)==c));
}
CONTRACT(rooted_here) {
  vtc_make_context(vtc::any_in<int>("rank",0,32766), 32767);
  auto c=anyCat("cat"); auto e=EM::generateRootedEpoch(c);
  ENSURES("rooted-epoch-names-this-node", EM::isRooted(e)&(EM::node(e)==theContext()->getNode())&(EM::category(e)==c)&(EM::seq(e)==0));
}
CONTRACT(distinct) {
  // two epochs agreeing as words agree in every component
  bool r1=vtc::any<bool>("r1"), r2=vtc::any<bool>("r2"); auto c1=anyCat("c1"), c2=anyCat("c2"); auto n1=anyNode("n1"), n2=anyNode("n2");
  auto a=EM::generateEpoch(r1,n1,c1), b=EM::generateEpoch(r2,n2,c2);
  auto s1=vtc::any<uint64_t>("s1"), s2=vtc::any<uint64_t>("s2");
  REQUIRES(s1 < (r1 ? 1ull<<epoch_seq_root_num_bits : 1ull<<epoch_seq_coll_num_bits));
  REQUIRES(s2 < (r2 ? 1ull<<epoch_seq_root_num_bits : 1ull<<epoch_seq_coll_num_bits));
  EM::setSeq(a,s1); EM::setSeq(b,s2);
  ENSURES("distinct-epochs-distinct-words", vtc::implies(a==b,(r1==r2)&(c1==c2)&(s1==s2)&(!r1|(n1==n2))));
}
CONTRACT(successor) {
  // the next sequence number is the next word: windows step epochs arithmetically
  bool r=vtc::any<bool>("r"); auto c=anyCat("c"); auto n=anyNode("n"); auto a=EM::generateEpoch(r,n,c);
  auto s=vtc::any<uint64_t>("s"); REQUIRES(s < (r ? 1ull<<epoch_seq_root_num_bits : 1ull<<epoch_seq_coll_num_bits)-1);
  EM::setSeq(a,s); auto b=a; EM::setSeq(b,s+1);
  ENSURES("consecutive-sequence-numbers-are-consecutive-words", *b==*a+1);
}
CONTRACT(archetype) {
  auto e=EpochType{vtc::any<uint64_t>("e")};
  alignas(16) static unsigned char buf[sizeof(EM)]; auto* m=reinterpret_cast<EM*>(buf);
  auto a=m->getArchetype(e);
  ENSURES("archetype-seq-zero", EM::seq(a)==0);
  ENSURES("archetype-kind-and-category", (EM::isRooted(a)==EM::isRooted(e))&(EM::category(a)==EM::category(e)));
  if (EM::isRooted(e)) ENSURES("archetype-node", EM::node(a)==EM::node(e));
  ENSURES("archetype-idempotent", m->getArchetype(a)==a);
}
CONTRACT(setters) {
  auto e=EpochType{vtc::any<uint64_t>("e")}; bool r=EM::isRooted(e); auto c=EM::category(e); auto s=EM::seq(e);
  NodeType n=0; if (r) n=EM::node(e);
  switch (vtc::choose(4)) {
  case 0: c=anyCat("v"); EM::setCategory(e,c); break;
  case 1: if (r) { n=vtc::any<NodeType>("v"); EM::setNode(e,n); } break;
  case 2: s=anySeq("v",r); EM::setSeq(e,s); break;
  default: { bool v=vtc::any<bool>("v"); EM::setIsRooted(e,v);
      ENSURES("rooted-bit", (EM::isRooted(e)==v)&(EM::category(e)==c));
      EM::setIsRooted(e,r); } break;
  }
  ENSURES("epoch-setter-changes-exactly-its-component", (EM::isRooted(e)==r)&(EM::category(e)==c)&(EM::seq(e)==s));
  if (r) ENSURES("epoch-setter-frames-node", EM::node(e)==n);
}
