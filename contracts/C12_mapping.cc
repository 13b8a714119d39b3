// Index-to-node maps: block, round robin, unbounded default and RDMA blocks.
// @opt intfirst=True
// @assume the number of elements is below the largest value of its type
// @assume coordinates non-negative, at least one node, and the linear size fits the index type
// @assume default RDMA element map: the total number of elements is a positive multiple of the number of blocks
// @bounded walk_region regions that touch at most 4 blocks
#include "vtc.h"
#include "vt/topos/index/dense/dense_array.h"
#include "vt/topos/index/index.h"
#include "vt/topos/mapping/mapping.h"
#include "vt/topos/mapping/dense/dense.h"
#include "vt/rdma/group/rdma_group.h"
#include "vt/rdma/group/rdma_map.h"
#include "vt/rdma/group/rdma_region.h"
#include "vt/context/context.h"
using namespace vt; using namespace vt::index; namespace mp=vt::mapping;
template <int D, typename T=int> using I=DenseIndexArray<T,D>;
// what every block map promises about one linear position
template <typename T> static void blockSpec(uint64_t n, uint64_t r, uint64_t i, NodeType m, NodeType m2, bool haveNext) {
  ENSURES("block-map-result-is-a-node", (m>=0)&((uint64_t)m<r));
  uint64_t q=n/r, e=n%r, k=(uint64_t)m; 
  uint64_t lo=k*q+(k<e?k:e), hi=lo+q+(k<e?1:0); // the k-th of r nearly equal consecutive parts
  ENSURES("balanced-contiguous-parts", (lo<=i)&(i<hi));
  if (haveNext) ENSURES("block-map-is-monotone-and-contiguous", (m2==m)|(m2==m+1));
}
template <typename T> static void flat() {
  T n=vtc::any<T>("elements"), i=vtc::any<T>("index"); NodeType r=vtc::any<NodeType>("nodes"); REQUIRES((n>=1)&(i>=0)&(i<n)&(r>=1)&(n<std::numeric_limits<T>::max()));
  NodeType m=mp::blockMapDenseFlatIndex<T,NodeType>(&i,&n,r); bool next=i+1<n; NodeType m2=m; if (next) { T j=i+1; m2=mp::blockMapDenseFlatIndex<T,NodeType>(&j,&n,r); }
  blockSpec<T>((uint64_t)n,(uint64_t)r,(uint64_t)i,m,m2,next);
}
CONTRACT(block_map_flat) { flat<int>(); } CONTRACT(block_map_flat_long) { flat<int64_t>(); }
CONTRACT(block_map_flat_past_the_end) { int n=vtc::any<int>("elements"), i=vtc::any<int>("index"); NodeType r=vtc::any<NodeType>("nodes"); REQUIRES((n>=0)&(i>=n)&(r>=1)&(n<2147483647)); NodeType m=mp::blockMapDenseFlatIndex<int,NodeType>(&i,&n,r); ENSURES("result-is-a-node", (m>=0)&(m<r)); }
template <int D> static I<D> anyIdx(int lim, char const* n) { I<D> r; for (int k=0;k<D;k++) r[k]=vtc_symbolic()?vtc::any<int>(n):vtc::any_in<int>(n,0,vtc::choose(2)?4:lim); return r; }
template <int D, class F> static void robin(int lim, F map) {
  auto m=anyIdx<D>(lim,"extent"), a=anyIdx<D>(lim,"a"); NodeType r=vtc::any<NodeType>("nodes"); bool in=r>=1; for (int k=0;k<D;k++) in=in&(m[k]>=1)&(m[k]<=lim)&(a[k]>=0)&(a[k]<m[k]); REQUIRES(in);
  int lin=0; for (int k=0;k<D;k++) lin=lin*m[k]+a[k];
  NodeType x=map(&a,&m,r); ENSURES("round-robin-result-is-a-node", (x>=0)&(x<r)); ENSURES("round-robin-deals-consecutive-positions", x==lin%r);
}
CONTRACT(round_robin_1d) { robin<1>(2147483647, &mp::dense1DRoundRobinMap<int>); }
CONTRACT(round_robin_2d) { robin<2>(46340, &mp::dense2DRoundRobinMap<int>); }
CONTRACT(round_robin_3d) { robin<3>(1290, &mp::dense3DRoundRobinMap<int>); }
CONTRACT(round_robin_nd) { robin<4>(215, &mp::denseNDRoundRobinMap<int,4>); }
static int g_nodes=1;
static NodeType anyBlockMap(RDMA_BlockType b, RDMA_BlockType) { return (NodeType)(b%g_nodes); }
CONTRACT(rdma_element_map) {
  auto e=vtc::any<RDMA_ElmType>("element"), n=vtc::any<RDMA_ElmType>("elements"); auto b=vtc::any<RDMA_BlockType>("blocks");
  REQUIRES((e>=0)&(e<n)&(b>=1)&(n>=1)); REQUIRES((n>=b)&(n%b==0)); REQUIRES((b<=0x7fffffff));
  auto t=rdma::Map::defaultElmMap(e,n,b); auto k=std::get<0>(t); auto lo=std::get<1>(t), hi=std::get<2>(t);
  ENSURES("element-belongs-to-a-block", (k>=0)&(k<b)); ENSURES("block-range-contains-the-element", (lo<=e)&(e<hi));
  ENSURES("equal-blocks", (hi-lo==n/b)&(lo==k*(n/b))); ENSURES("block-range-inside-the-whole", (lo>=0)&(hi<=n));
}
CONTRACT(walk_region) {
  auto bs=vtc::any_in<int64_t>("block size",1,1000000); int nb=(int)vtc::any_in<int>("blocks",1,30000); auto n=bs*nb; 
  auto lo=vtc::any<int64_t>("lo"), hi=vtc::any<int64_t>("hi"); REQUIRES((lo>=0)&(lo<=hi)&(hi<=n)); REQUIRES(hi-lo<=3*bs);
  rdma::Group g(rdma::Map(anyBlockMap,rdma::Map::defaultElmMap),n,nb,8); g_nodes=nb; rdma::Region reg(lo,hi);
  auto at=lo; bool ok=true; int calls=0; g.walk_region(reg,[&](NodeType node, rdma::RDMA_BlockElmRangeType rng, RDMA_ElmType l, RDMA_ElmType h){ calls++; ok=ok&(l==at)&(l<h)&(std::get<1>(rng)<=l)&(h<=std::get<2>(rng))&(std::get<0>(rng)==node); at=h; });
  ENSURES("pieces-are-consecutive-within-one-block", ok); ENSURES("pieces-cover-the-region", at==hi); ENSURES("region-size", reg.getSize()==hi-lo);
}
