// Object identifiers: object-group proxies, virtual proxies, collection element proxies, element IDs.
// @source vt/objgroup/proxy/proxy_bits.cc vt/vrt/proxy/proxy_bits.cc vt/vrt/collection/proxy_builder/elm_proxy_builder.cc vt/elm/elm_id_bits.cc vt/elm/elm_id.cc vt/context/context.cc
// @assume object-group and virtual ids fit their documented widths (32 bits, 16 bits for remote ids, 46 bits for element sequence numbers)
#include "vtc.h"
#include "vtc_ctx.h"
#include "vt/objgroup/common.h"
#include "vt/objgroup/proxy/proxy_bits.h"
#include "vt/vrt/proxy/proxy_bits.h"
#include "vt/vrt/collection/proxy_builder/elm_proxy_builder.h"
#include "vt/elm/elm_id_bits.h"
using namespace vt;
using OP = objgroup::proxy::ObjGroupProxy; using OID = objgroup::ObjGroupIDType;
struct O { bool c, coll; NodeType n; OID id; };
static O oview(ObjGroupProxyType p) { return {OP::isControl(p),OP::isCollective(p),OP::getNode(p),OP::getID(p)}; }
static bool oeq(O const& a, O const& b) { return (a.c==b.c)&(a.coll==b.coll)&(a.n==b.n)&(a.id==b.id); }
CONTRACT(objgroup_create) {
  auto id=vtc::any<OID>("id"); auto n=vtc::any<NodeType>("node"); bool c=vtc::any<bool>("collective");
  auto p=OP::create(id,n,c);
  ENSURES("objgroup-id", OP::getID(p)==id);
  ENSURES("objgroup-collective", OP::isCollective(p)==c);
  ENSURES("objgroup-control", OP::isControl(p));
  ENSURES("objgroup-node", OP::getNode(p)==vtc::ite<NodeType>(c,0,n));
}
CONTRACT(objgroup_setters) {
  auto p=vtc::any<ObjGroupProxyType>("p"); O w=oview(p);
  switch (vtc::choose(4)) {
  case 0: w.id=vtc::any<OID>("v"); OP::setID(p,w.id); break;
  case 1: w.n=vtc::any<NodeType>("v"); OP::setNode(p,w.n); break;
  case 2: w.coll=vtc::any<bool>("v"); OP::setIsCollective(p,w.coll); break;
  default: w.c=vtc::any<bool>("v"); OP::setControl(p,w.c); break;
  }
  ENSURES("objgroup-setter-changes-exactly-its-component", oeq(oview(p),w));
}
using VP = vrt::VirtualProxyBuilder;
static vrt::VirtualRemoteIDType remoteID(VirtualProxyType p) {
  return BitPackerType::getField<vrt::eVirtualProxyRemoteBits::RemoteID, vrt::virtual_remote_id_num_bits, vrt::VirtualRemoteIDType>(p);
}
static NodeType remoteNode(VirtualProxyType p) {
  return BitPackerType::getField<vrt::eVirtualProxyRemoteBits::RemoteNode, vrt::virtual_node_num_bits, NodeType>(p);
}
struct V { bool c,m,r; NodeType n; };
static V vview(VirtualProxyType p) { return {VP::isCollection(p),VP::isMigratable(p),VP::isRemote(p),VP::getVirtualNode(p)}; }
static bool veq(V const& a, V const& b) { return (a.c==b.c)&(a.m==b.m)&(a.r==b.r)&(a.n==b.n); }
CONTRACT(virtual_create) {
  auto id=vtc::any<vrt::VirtualIDType>("id"); auto n=vtc::any<NodeType>("node");
  bool c=vtc::any<bool>("coll"), m=vtc::any<bool>("mig"), d=vtc::any<bool>("dist");
  auto p=VP::createProxy(id,n,c,m,d);
  ENSURES("virtual-id", VP::getVirtualID(p)==id);
  ENSURES("virtual-flags", (VP::isCollection(p)==c)&(VP::isMigratable(p)==m)&(VP::isRemote(p)==d));
  ENSURES("virtual-node", VP::getVirtualNode(p)==vtc::ite<NodeType>(d,0,n));
}
CONTRACT(virtual_create_remote) {
  auto id=vtc::any<vrt::VirtualRemoteIDType>("id"); auto n=vtc::any<NodeType>("this"); auto t=vtc::any<NodeType>("target");
  bool c=vtc::any<bool>("coll"), m=vtc::any<bool>("mig");
  auto p=VP::createRemoteProxy(id,n,t,c,m);
  ENSURES("remote-flags", veq(vview(p),V{c,m,true,t}));
  ENSURES("remote-id-and-node", (remoteID(p)==id)&(remoteNode(p)==n));
  auto id2=vtc::any<vrt::VirtualRemoteIDType>("id2"); auto n2=vtc::any<NodeType>("this2");
  auto q=VP::createRemoteProxy(id2,n2,t,c,m);
  ENSURES("distinct-remote-proxies", vtc::implies(p==q,(id==id2)&(n==n2)));
}
CONTRACT(virtual_setters) {
  auto p=vtc::any<VirtualProxyType>("p"); V w=vview(p); auto id=VP::getVirtualID(p);
  switch (vtc::choose(5)) {
  case 0: w.c=vtc::any<bool>("v"); VP::setIsCollection(p,w.c); break;
  case 1: w.m=vtc::any<bool>("v"); VP::setIsMigratable(p,w.m); break;
  case 2: w.r=vtc::any<bool>("v"); VP::setIsRemote(p,w.r); break;
  case 3: w.n=vtc::any<NodeType>("v"); VP::setVirtualNode(p,w.n); break;
  default: id=vtc::any<vrt::VirtualIDType>("v"); VP::setVirtualID(p,id); break;
  }
  ENSURES("virtual-setter-changes-exactly-its-component", veq(vview(p),w)&(VP::getVirtualID(p)==id));
}
CONTRACT(virtual_remote_setters) {
  auto p=vtc::any<VirtualProxyType>("p"); V w=vview(p); auto id=remoteID(p); auto n=remoteNode(p);
  if (vtc::choose(2)) { id=vtc::any<vrt::VirtualRemoteIDType>("v"); VP::setVirtualRemoteID(p,id); }
  else { n=vtc::any<NodeType>("v"); VP::setVirtualRemoteNode(p,n); }
  ENSURES("remote-setter-changes-exactly-its-component", veq(vview(p),w)&(remoteID(p)==id)&(remoteNode(p)==n));
}
CONTRACT(element_proxy) {
  using EB=vrt::collection::VirtualElemProxyBuilder;
  VirtualElmOnlyProxyType p=vtc::any<uint64_t>("before"); auto b=vtc::any<UniqueIndexBitType>("bits");
  EB::createElmProxy(p,b);
  ENSURES("element-proxy-index", EB::elmProxyGetIndex(p)==b);
}
using EB = elm::ElmIDBits;
static uint64_t anySeq(const char* n) { return vtc::any_in<uint64_t>(n,0,(1ull<<46)-1); }
CONTRACT(elm_collection) {
  bool m=vtc::any<bool>("migratable"); auto s=anySeq("seq"); auto h=vtc::any<NodeType>("home"), c=vtc::any<NodeType>("curr");
  auto e=EB::createCollectionImpl(m,s,h,c);
  ENSURES("element-migratable", e.isMigratable()==m);
  ENSURES("element-home-node", e.getHomeNode()==h);
  ENSURES("element-current-node", e.getCurrNode()==c);
  ENSURES("element-kind", EB::getControlBits(e.id)==vtc::ite<elm::eElmIDControlBits>(m,elm::CollectionMigratable,elm::CollectionNonMigratable));
  bool m2=vtc::any<bool>("migratable2"); auto s2=anySeq("seq2"); auto h2=vtc::any<NodeType>("home2");
  auto f=EB::createCollectionImpl(m2,s2,h2,c);
  ENSURES("distinct-elements-have-distinct-ids", vtc::implies(e.id==f.id,(m==m2)&(s==s2)&(h==h2)));
}
CONTRACT(elm_objgroup) {
  vtc_make_context(vtc::any_in<int>("rank",0,32767), 32767);
  auto id=vtc::any<OID>("id"); auto cn=vtc::any<NodeType>("creator"); bool coll=vtc::any<bool>("coll"); auto n=vtc::any<NodeType>("node");
  auto p=OP::create(id,cn,coll);
  auto e=EB::createObjGroup(p,n);
  ENSURES("objgroup-element-kind", (EB::getControlBits(e.id)==elm::ObjGroup)&!e.isMigratable());
  ENSURES("objgroup-element-home", e.getHomeNode()==n);
  ENSURES("objgroup-element-curr", e.getCurrNode()==theContext()->getNode());
  auto q=p; OP::setNode(q,n);
  ENSURES("objgroup-element-proxy-with-node", EB::getObjGroupProxy(e.id,true)==q);
  OP::setNode(q,0);
  ENSURES("objgroup-element-proxy-without-node", EB::getObjGroupProxy(e.id,false)==q);
}
CONTRACT(elm_bare) {
  auto n=vtc::any<NodeType>("node");
  auto e=EB::createBareHandler(n);
  ENSURES("bare-element", (EB::getControlBits(e.id)==elm::BareHandler)&!e.isMigratable()&(e.getHomeNode()==n)&(e.getCurrNode()==n));
}
CONTRACT(elm_kinds_disjoint) {
  bool m=vtc::any<bool>("migratable"); auto s=anySeq("seq"); auto h=vtc::any<NodeType>("home");
  vtc_make_context(0,1);
  auto c=EB::createCollectionImpl(m,s,h,h); auto b=EB::createBareHandler(vtc::any<NodeType>("bnode"));
  auto o=EB::createObjGroup(OP::create(vtc::any<OID>("id"),0,true),vtc::any<NodeType>("onode"));
  ENSURES("ids-of-different-kinds-differ", !(c==b)&!(c==o)&!(b==o));
}
CONTRACT(elm_located) {
  vtc_make_context(vtc::any_in<int>("rank",0,32767), 32767);
  elm::ElementIDStruct e{vtc::any<uint64_t>("id"),vtc::any<NodeType>("curr")};
  bool mig=EB::getControlBits(e.id)==elm::CollectionMigratable;
  ENSURES("migratable-iff-kind", e.isMigratable()==mig);
  ENSURES("located-here", e.isLocatedOnThisNode()==((theContext()->getNode()==e.curr_node)&!mig));
  elm::ElementIDStruct f{vtc::any<uint64_t>("id2"),vtc::any<NodeType>("curr2")};
  ENSURES("element-order-and-equality-by-id", ((e==f)==(e.id==f.id)) & ((e<f)==(e.id<f.id)));
}
