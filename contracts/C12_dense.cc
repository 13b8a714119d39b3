// Dense block maps place an index by its column-major linear position (callee blockMapDenseFlatIndex: contract in C12_mapping.cc).
// @opt intfirst=True
// @assume coordinates non-negative, at least one node, and the linear size fits the index type
// @replace 22blockMapDenseFlatIndexIis => vtc_flat
#include "vtc.h"
#include "vt/topos/index/dense/dense_array.h"
#include "vt/topos/index/index.h"
#include "vt/topos/mapping/mapping.h"
#include "vt/topos/mapping/dense/dense.h"
using namespace vt; using namespace vt::index; namespace mp=vt::mapping;
template <int D, typename T=int> using I=DenseIndexArray<T,D>;
// contract of blockMapDenseFlatIndex: some node, a function of its three arguments
static int g_lin, g_n; static NodeType g_r, g_ret; static unsigned g_calls;
extern "C" NodeType vtc_flat(int* i, int* n, NodeType r) { g_calls++; g_lin=*i; g_n=*n; g_r=r; NodeType x=vtc::any<NodeType>("owner"); REQUIRES((x>=0)&(x<r)); return g_ret=x; }
template <int D> static I<D> anyIdx(int lim, char const* n) { I<D> r; for (int k=0;k<D;k++) r[k]=vtc_symbolic()?vtc::any<int>(n):vtc::any_in<int>(n,0,vtc::choose(2)?4:lim); return r; }
// the dense block map is the flat block map of the column-major position, in every dimension
template <int D, class F> static void dense(int lim, F map, F dflt) {
  auto m=anyIdx<D>(lim,"extent"), a=anyIdx<D>(lim,"a"); NodeType r=vtc::any<NodeType>("nodes"); bool in=r>=1; for (int k=0;k<D;k++) in=in&(m[k]>=1)&(m[k]<=lim)&(a[k]>=0)&(a[k]<m[k]); REQUIRES(in); g_calls=0;
  int lin=0, n=1; for (int k=0;k<D;k++) { lin=lin*m[k]+a[k]; n*=m[k]; } // column major: last coordinate is fastest
  NodeType x=(vtc::choose(2)?map:dflt)(&a,&m,r); 
  if (g_calls) { ENSURES("dense-block-map-places-by-linear-position", (g_calls==1)&(g_lin==lin)&(g_n==n)&(g_r==r)&(x==g_ret)); return; }
  uint64_t q=(uint64_t)n/r, e=(uint64_t)n%r, k=(uint64_t)x, lo=k*q+(k<e?k:e), hi=lo+q+(k<e?1:0); // map computed in place or native run
  ENSURES("dense-block-map-places-by-linear-position", (x>=0)&(x<r)&(lo<=(uint64_t)lin)&((uint64_t)lin<hi));
}
CONTRACT(block_map_1d) { dense<1>(2147483646, &mp::dense1DBlockMap<int>, &mp::defaultDenseIndex1DMap<int>); }
CONTRACT(block_map_2d) { dense<2>(46340, &mp::dense2DBlockMap<int>, &mp::defaultDenseIndex2DMap<int>); }
CONTRACT(block_map_3d) { dense<3>(1290, &mp::dense3DBlockMap<int>, &mp::defaultDenseIndex3DMap<int>); }
CONTRACT(block_map_nd) { dense<4>(215, &mp::denseNDBlockMap<int,4>, &mp::defaultDenseIndexNDMap<int,4>); }
