// Dense indices: linearization, packing, order, hash.
// @opt intfirst=True
// @assume index coordinates non-negative and the index space fits the index type (signed overflow of the linear size is the user's responsibility)
// @bounded foreach_visits ranges of at most 3 per dimension
#include "vtc.h"
#include "vt/topos/index/dense/dense_array.h"
#include "vt/topos/index/index.h"
#include "vt/topos/mapping/mapping.h"
#include "vt/topos/mapping/dense/dense.h"
using namespace vt; using namespace vt::index; namespace mp=vt::mapping; using B=UniqueIndexBitType;
template <int D, typename T=int> using I=DenseIndexArray<T,D>;
template <int D, typename T> static I<D,T> anyIdx(T lim, char const* n) { I<D,T> r; for (int k=0;k<D;k++) { T v=vtc_symbolic()?vtc::any<T>(n):vtc::any_in<T>(n,0,vtc::choose(2)?4:lim); r[k]=v; } return r; }
// spec: mixed radix value of an index
template <int D, typename T> static uint64_t size(I<D,T> const& m) { uint64_t r=1; for (int k=0;k<D;k++) r*=(uint64_t)m.get(k); return r; }
template <int D, typename T> static void linear(T lim, int col) {
  auto m=anyIdx<D,T>(lim,"extent"), a=anyIdx<D,T>(lim,"a"), b=anyIdx<D,T>(lim,"b"); bool in=true;
  for (int k=0;k<D;k++) in=in&(m[k]>=1)&(m[k]<=lim)&(a[k]>=0)&(a[k]<m[k])&(b[k]>=0)&(b[k]<m[k]); REQUIRES(in);
  T la,lb; if (col) { la=mp::linearizeDenseIndexColMajor<T,D>(&a,&m); lb=mp::linearizeDenseIndexColMajor<T,D>(&b,&m); } else { la=mp::linearizeDenseIndexRowMajor<T,D>(&a,&m); lb=mp::linearizeDenseIndexRowMajor<T,D>(&b,&m); }
  ENSURES("linear-index-within-the-size", (la>=0)&((uint64_t)la<m.getSize())&(m.getSize()==size<D,T>(m)));
  bool eq=true; for (int k=0;k<D;k++) eq=eq&(a[k]==b[k]);
  ENSURES("linearization-is-injective", (la==lb)==eq);
  // the neighbour in the fastest dimension is next
  int f=col?D-1:0; if (a[f]+1<m[f]) { auto c=a; c[f]=c[f]+1; T lc; if (col) lc=mp::linearizeDenseIndexColMajor<T,D>(&c,&m); else lc=mp::linearizeDenseIndexRowMajor<T,D>(&c,&m); ENSURES("fastest-dimension-is-contiguous", lc==la+1); }
}
CONTRACT(linearize_1d) { linear<1,int>(2147483647,(int)vtc::choose(2)); }
CONTRACT(linearize_2d) { linear<2,int>(46340,(int)vtc::choose(2)); }
CONTRACT(linearize_3d) { linear<3,int>(1290,(int)vtc::choose(2)); }
CONTRACT(linearize_2d_long) { linear<2,int64_t>(3037000499ll,(int)vtc::choose(2)); }
CONTRACT(linearize_4d) { linear<4,int>(215,1); }
template <int D> static void refuse() { auto m=anyIdx<D,int>(30000,"extent"), a=anyIdx<D,int>(30000,"a"); bool in=true; for (int k=0;k<D;k++) in=in&(a[k]<m[k]); REQUIRES(!in); vtc_expect_abort(1);
  if (vtc::choose(2)) mp::linearizeDenseIndexColMajor<int,D>(&a,&m); else mp::linearizeDenseIndexRowMajor<int,D>(&a,&m); ENSURES("index-outside-the-range-refused", false); }
CONTRACT(out_of_range_refused) { if (vtc::choose(2)) refuse<1>(); else refuse<3>(); }
template <int D, typename T> static void pack() {
  int nb=64/D; auto lim=(uint64_t)(nb>=(int)sizeof(T)*8 ? (std::is_signed_v<T>? (~0ull>>(65-sizeof(T)*8)) : ~0ull) : (1ull<<nb)-1);
  I<D,T> a,b; bool in=true; for (int k=0;k<D;k++) { a[k]=vtc::any<T>("a"); b[k]=vtc::any<T>("b"); in=in&(a[k]>=0)&((uint64_t)a[k]<=lim)&(b[k]>=0)&((uint64_t)b[k]<=lim); } REQUIRES(in);
  auto u=a.uniqueBits(), v=b.uniqueBits(); auto r=I<D,T>::uniqueBitsToIndex(u);
  bool rt=true, eq=true; for (int k=0;k<D;k++) { rt=rt&(r[k]==a[k]); eq=eq&(a[k]==b[k]); }
  ENSURES("unique-bits-round-trip", rt); ENSURES("unique-bits-distinguish-indices", (u==v)==eq);
}
CONTRACT(unique_bits_1d) { pack<1,int>(); } CONTRACT(unique_bits_1d_long) { pack<1,int64_t>(); } 
CONTRACT(unique_bits_2d) { pack<2,int>(); }
CONTRACT(unique_bits_3d) { pack<3,int>(); }
CONTRACT(unique_bits_4d) { pack<4,int16_t>(); }
CONTRACT(unique_bits_6d) { pack<6,int>(); }
template <int D, typename T> static void order() {
  I<D,T> a,b,c; for (int k=0;k<D;k++) { a[k]=vtc::any<T>("a"); b[k]=vtc::any<T>("b"); c[k]=vtc::any<T>("c"); }
  bool eq=true; for (int k=0;k<D;k++) eq=eq&(a[k]==b[k]);
  bool ab=a<b, ba=b<a, e=a==b; ENSURES("equality-is-coordinate-wise", e==eq); ENSURES("order-is-total", (ab?1:0)+(ba?1:0)+(e?1:0)==1);
  bool bc=b<c, ac=a<c; ENSURES("order-is-transitive", vtc::implies(ab&bc,ac));
  if (e) ENSURES("equal-indices-hash-equally", (std::hash<I<D,T>>()(a)==std::hash<I<D,T>>()(b)));
}
CONTRACT(order_1d) { order<1,int>(); } CONTRACT(order_3d) { order<3,int>(); } 
CONTRACT(order_2d_long) { order<2,int64_t>(); }
template <int D> static void neighbours() {
  auto a=anyIdx<D,int>(1000000,"a"), b=anyIdx<D,int>(1000000,"b"); bool in=true; for (int k=0;k<D;k++) in=in&(a[k]<=1000000000)&(a[k]>=-1000000000)&(b[k]<=1000000000)&(b[k]>=-1000000000); REQUIRES(in);
  auto s=a+b, d=s-b; bool ok=true; for (int k=0;k<D;k++) ok=ok&(s[k]==a[k]+b[k]); ENSURES("addition-is-coordinate-wise", ok); ENSURES("subtraction-undoes-addition", d==a);
}
CONTRACT(neighbour_arithmetic) { if (vtc::choose(2)) neighbours<1>(); else neighbours<3>(); }
CONTRACT(accessors) {
  int v[6]; for (auto& x : v) x=vtc::any<int>("c"); I<6> a(v[0],v[1],v[2],v[3],v[4],v[5]); ENSURES("coordinates", (a.x()==v[0])&(a.y()==v[1])&(a.z()==v[2])&(a.u()==v[3])&(a.v()==v[4])&(a.w()==v[5]));
  bool ok=true; for (int k=0;k<6;k++) ok=ok&(a.get(k)==v[k])&(a[k]==v[k])&(a.raw()[k]==v[k]); ENSURES("indexed-coordinates", ok); ENSURES("packed-size", (a.packedSize()==24)&(I<6>::ndims()==6));
  I<3> s(dense_single_value_tag,v[0]); ENSURES("single-value-index", (s.x()==v[0])&(s.y()==v[0])&(s.z()==v[0])); I<2> z; ENSURES("default-index-is-zero", (z.x()==0)&(z.y()==0));
  std::array<int,2> r{{v[1],v[2]}}; I<2> q(r); ENSURES("index-from-array", (q.x()==v[1])&(q.y()==v[2]));
}
template <int D> static void visit() {
  I<D> m; for (int k=0;k<D;k++) m[k]=(int)vtc::choose(4); unsigned n=0; uint64_t seen=0; bool in=true, once=true, self=vtc::choose(2);
  auto f=[&](I<D> i){ n++; uint64_t l=0; for (int k=0;k<D;k++) { in=in&(i[k]>=0)&(i[k]<m[k]); l=l*4+i[k]; } once=once&!(seen>>l&1); seen|=1ull<<l; };
  if (self) m.foreach(f); else I<D>().foreach(m,f);
  ENSURES("foreach-visits-each-index-once", in&once&(n==m.getSize()));
}
CONTRACT(foreach_visits) { switch (vtc::choose(3)) { case 0: visit<1>(); break; case 1: visit<2>(); break; default: visit<3>(); } }
