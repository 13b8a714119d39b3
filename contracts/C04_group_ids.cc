// Group identifiers.
// @source vt/group/id/group_id.cc
#include "vtc.h"
#include "vt/group/id/group_id.h"
using namespace vt; using namespace vt::group;
using GB = GroupIDBuilder;
struct G { bool c,s; NodeType n; GroupIDType id; };
static G view(GroupType g) { return {GB::isCollective(g),GB::isStatic(g),GB::getNode(g),GB::getGroupID(g)}; }
static bool eq(G const& a, G const& b) { return (a.c==b.c)&(a.s==b.s)&(a.n==b.n)&(a.id==b.id); }
CONTRACT(group_create) {
  auto id=vtc::any<GroupIDType>("id"); auto n=vtc::any<NodeType>("node"); bool c=vtc::any<bool>("coll"), s=vtc::any<bool>("static");
  auto g=GB::createGroupID(id,n,c,s);
  ENSURES("group-id", GB::getGroupID(g)==id);
  ENSURES("group-collective", GB::isCollective(g)==c);
  ENSURES("group-static", GB::isStatic(g)==s);
  ENSURES("group-node", GB::getNode(g)==vtc::ite<NodeType>(c,group_collective_node,n));
}
CONTRACT(group_distinct) {
  auto id=vtc::any<GroupIDType>("id"), id2=vtc::any<GroupIDType>("id2"); auto n=vtc::any<NodeType>("node"), n2=vtc::any<NodeType>("node2");
  bool c=vtc::any<bool>("coll"), c2=vtc::any<bool>("coll2"), s=vtc::any<bool>("static"), s2=vtc::any<bool>("static2");
  auto a=GB::createGroupID(id,n,c,s), b=GB::createGroupID(id2,n2,c2,s2);
  ENSURES("distinct-groups-distinct-ids", vtc::implies(a==b, (id==id2)&(c==c2)&(s==s2)&(c|(n==n2))));
}
CONTRACT(group_setters) {
  auto g=vtc::any<GroupType>("g"); G w=view(g);
  switch (vtc::choose(4)) {
  case 0: w.c=vtc::any<bool>("v"); GB::setIsCollective(g,w.c); break;
  case 1: w.s=vtc::any<bool>("v"); GB::setIsStatic(g,w.s); break;
  case 2: w.n=vtc::any<NodeType>("v"); GB::setNode(g,w.n); break;
  default: w.id=vtc::any<GroupIDType>("v"); GB::setID(g,w.id); break;
  }
  ENSURES("group-setter-changes-exactly-its-component", eq(view(g),w));
}
