// Reduction operators: what combining two values means, element by element, and that the order of combining is immaterial.
// @pre reduce/pre.h
// @source vt/pipe/signal/signal_holder.cc vt/collective/reduce/reduce.cc vt/collective/tree/tree.cc vt/context/context.cc vt/epoch/epoch_manip.cc
// @symsource @vtc/abs/std/string_inst.cc
// @opt stl_model=True
// @bounded vectors vectors of at most 4 elements
// @bounded vectors_max vectors of at most 4 elements
// @bounded vectors_min vectors of at most 4 elements
// @bounded vectors_and vectors of at most 4 elements
// @bounded vectors_or vectors of at most 4 elements
// @bounded chain chains of at most 6 messages
#include "vtc.h"
#include "vtc_ctx.h"
#include "vt/collective/reduce/reduce.h"
#include "vt/pool/pool.h"
#include <cstdlib>
namespace vtc_env { alignas(64) inline unsigned char pool[sizeof(vt::pool::Pool)]; }
namespace vt { pool::Pool* thePool() { return reinterpret_cast<pool::Pool*>(vtc_env::pool); }
namespace pool { std::byte* Pool::alloc(size_t const& n, size_t o) { return static_cast<std::byte*>(std::malloc(n+o)); } void Pool::dealloc(std::byte* p) { std::free(p); } } }
using namespace vt; using namespace vt::collective::reduce; namespace op=vt::collective::reduce::operators;
template <typename T, typename Op> T ap(T a, T const& b) { T c=b; Op()(a,c); return a; }
template <typename T, typename Op, typename F> void scalar(F want) { auto a=vtc::any<T>("a"), b=vtc::any<T>("b"); auto c=b; T r=a; Op()(r,c); ENSURES("result", r==want(a,b)); ENSURES("second-operand-unchanged", c==b); }
template <typename T, typename Op> void laws() { auto a=vtc::any<T>("a"), b=vtc::any<T>("b"), c=vtc::any<T>("c"); auto x=ap<T,Op>(ap<T,Op>(a,b),c), y=ap<T,Op>(ap<T,Op>(c,b),a), z=ap<T,Op>(b,ap<T,Op>(a,c)); ENSURES("order-is-immaterial", (x==y)&(y==z)); }
template <template <typename> class Op, typename F> void tuples(F want) {
  using T=std::tuple<uint32_t,uint64_t,uint8_t>; T a{vtc::any<uint32_t>("a0"),vtc::any<uint64_t>("a1"),vtc::any<uint8_t>("a2")}, b{vtc::any<uint32_t>("b0"),vtc::any<uint64_t>("b1"),vtc::any<uint8_t>("b2")}; T r=a, c=b; Op<T>()(r,c);
  ENSURES("each-component-by-itself", (std::get<0>(r)==(uint32_t)want(std::get<0>(a),std::get<0>(b)))&(std::get<1>(r)==(uint64_t)want(std::get<1>(a),std::get<1>(b)))&(std::get<2>(r)==(uint8_t)want(std::get<2>(a),std::get<2>(b)))); ENSURES("second-operand-unchanged", c==b);
  using N=std::tuple<uint16_t,std::tuple<uint64_t,uint32_t>>; N d{(uint16_t)vtc::any<uint16_t>("d"),std::tuple<uint64_t,uint32_t>{std::get<1>(a),std::get<0>(a)}}, e{(uint16_t)vtc::any<uint16_t>("e"),std::tuple<uint64_t,uint32_t>{std::get<1>(b),std::get<0>(b)}}; N n=d; Op<N>()(n,e);
  ENSURES("nested", (std::get<0>(n)==(uint16_t)want(std::get<0>(d),std::get<0>(e)))&(std::get<0>(std::get<1>(n))==std::get<1>(r))&(std::get<1>(std::get<1>(n))==std::get<0>(r))); }
template <template <typename> class Op, typename F> void arrays(F want) { using T=std::array<uint32_t,3>; T a,b; for (int k=0;k<3;k++) { a[k]=vtc::any<uint32_t>("a"); b[k]=vtc::any<uint32_t>("b"); } T r=a, c=b; Op<T>()(r,c); for (int k=0;k<3;k++) ENSURES("each-element", (r[k]==(uint32_t)want(a[k],b[k]))&(c[k]==b[k]));
  using P=std::tuple<uint64_t,std::array<uint32_t,3>>; P p{vtc::any<uint64_t>("p"),a}, q{vtc::any<uint64_t>("q"),b}; P s=p; Op<P>()(s,q); ENSURES("array-in-a-tuple", (std::get<0>(s)==(uint64_t)want(std::get<0>(p),std::get<0>(q))) && std::get<1>(s)==r); }
template <template <typename> class Op, typename F> void vectors_(F want) { using T=std::vector<uint32_t>; int n=vtc::choose(5); T a(n),b(n); for (int k=0;k<n && k<4;k++) { a[k]=vtc::any<uint32_t>("a"); b[k]=vtc::any<uint32_t>("b"); } T r=a, c=b; Op<T>()(r,c); ENSURES("size-kept", (r.size()==(std::size_t)n)&(c.size()==(std::size_t)n)); for (int k=0;k<n && k<4;k++) ENSURES("each-element", (r[k]==(uint32_t)want(a[k],b[k]))&(c[k]==b[k])); }
static auto plus=[](auto a, auto b) { return a+b; }; static auto mx=[](auto a, auto b) { return a<b?b:a; }; static auto mn=[](auto a, auto b) { return b<a?b:a; }; static auto land=[](auto a, auto b) { return (a!=0)&(b!=0); }; static auto lor=[](auto a, auto b) { return (a!=0)|(b!=0); };
static auto band=[](auto a, auto b) { return a&b; }; static auto bor=[](auto a, auto b) { return a|b; }; static auto bxor=[](auto a, auto b) { return a^b; };
CONTRACT(scalars) { switch (vtc::choose(13)) { case 0: scalar<uint64_t,op::PlusOp<uint64_t>>(plus); break; case 1: scalar<uint16_t,op::PlusOp<uint16_t>>([](auto a,auto b){ return (uint16_t)(a+b); }); break; case 2: scalar<int32_t,op::MaxOp<int32_t>>(mx); break; case 3: scalar<uint32_t,op::MaxOp<uint32_t>>(mx); break; case 4: scalar<int64_t,op::MinOp<int64_t>>(mn); break; case 5: scalar<uint8_t,op::MinOp<uint8_t>>(mn); break; case 6: scalar<bool,op::AndOp<bool>>(land); break; case 7: scalar<int32_t,op::AndOp<int32_t>>(land); break; case 8: scalar<bool,op::OrOp<bool>>(lor); break; case 9: scalar<int32_t,op::OrOp<int32_t>>(lor); break; case 10: scalar<uint64_t,op::BitAndOp<uint64_t>>(band); break; case 11: scalar<uint32_t,op::BitOrOp<uint32_t>>(bor); break; default: scalar<uint64_t,op::BitXorOp<uint64_t>>(bxor); break; } }
CONTRACT(order_immaterial) { switch (vtc::choose(8)) { case 0: laws<uint64_t,op::PlusOp<uint64_t>>(); break; case 1: laws<int32_t,op::MaxOp<int32_t>>(); break; case 2: laws<int32_t,op::MinOp<int32_t>>(); break; case 3: laws<bool,op::AndOp<bool>>(); break; case 4: laws<bool,op::OrOp<bool>>(); break; case 5: laws<uint64_t,op::BitAndOp<uint64_t>>(); break; case 6: laws<uint64_t,op::BitOrOp<uint64_t>>(); break; default: laws<uint64_t,op::BitXorOp<uint64_t>>(); break; } }
CONTRACT(floating) { auto a=vtc::any<double>("a"), b=vtc::any<double>("b"); REQUIRES(a==a && b==b); double x=a, y=b; op::MaxOp<double>()(x,y); ENSURES("maximum", (x>=a)&(x>=b)&((x==a)|(x==b))); double z=a; op::MinOp<double>()(z,y); ENSURES("minimum", (z<=a)&(z<=b)&((z==a)|(z==b))); }
CONTRACT(tuple_plus) { tuples<op::PlusOp>(plus); } CONTRACT(tuple_max) { tuples<op::MaxOp>(mx); } CONTRACT(tuple_min) { tuples<op::MinOp>(mn); } CONTRACT(tuple_and) { tuples<op::AndOp>(land); } CONTRACT(tuple_or) { tuples<op::OrOp>(lor); }
CONTRACT(tuple_bits) { tuples<op::BitAndOp>(band); tuples<op::BitOrOp>(bor); tuples<op::BitXorOp>(bxor); }
CONTRACT(array_ops) { switch (vtc::choose(4)) { case 0: arrays<op::PlusOp>(plus); break; case 1: arrays<op::MaxOp>(mx); break; case 2: arrays<op::MinOp>(mn); break; default: arrays<op::AndOp>(land); break; } }
CONTRACT(vectors) { vectors_<op::PlusOp>(plus); } CONTRACT(vectors_max) { vectors_<op::MaxOp>(mx); } CONTRACT(vectors_min) { vectors_<op::MinOp>(mn); } CONTRACT(vectors_and) { vectors_<op::AndOp>(land); } CONTRACT(vectors_or) { vectors_<op::OrOp>(lor); }
// vectors of different lengths are refused, however long
template <typename Op> void mismatch() { std::vector<uint32_t> a, b; auto set=[](std::vector<uint32_t>& v, uint32_t n) { auto* p=static_cast<uint32_t*>(std::malloc(4ul*n+4)); auto& i=v._M_impl; i._M_start=p; i._M_finish=i._M_end_of_storage=p+n; }; auto n=vtc_symbolic()?vtc::any<uint32_t>("n"):vtc::any_in<uint32_t>("n",0,9), m=vtc_symbolic()?vtc::any<uint32_t>("m"):vtc::any_in<uint32_t>("m",0,9); REQUIRES(n!=m); set(a,n); set(b,m); vtc_expect_abort(1); Op()(a,b); ENSURES("refused", false); }
CONTRACT(lengths_must_agree) { using V=std::vector<uint32_t>; int k=vtc::choose(5); if (k==0) mismatch<op::PlusOp<V>>(); else if (k==1) mismatch<op::MaxOp<V>>(); else if (k==2) mismatch<op::MinOp<V>>(); else if (k==3) mismatch<op::AndOp<V>>(); else mismatch<op::OrOp<V>>(); }
// the first message of a chain ends up with all of them, each once; the others are only read
CONTRACT(chain) { using D=std::tuple<uint64_t,uint32_t>; struct Op { void operator()(D& a, D const& b) { op::PlusOp<D>()(a,b); } }; using M=op::ReduceTMsg<D>; vtc_make_context(0,1); int n=1+vtc::choose(6); uint64_t want=0; uint32_t w2=0; M* ms[6]; D ds[6];
  for (int k=0;k<n && k<6;k++) { ds[k]=D{vtc::any<uint64_t>("v"),vtc::any<uint32_t>("w")}; auto p=makeMessage<M>(ds[k]); messageRef(p.get()); ms[k]=p.get(); want+=std::get<0>(ds[k]); w2+=std::get<1>(ds[k]); if (k) ms[k-1]->next_=ms[k]; }
  op::ReduceCombine<void>::msgHandler<M,Op,op::NoCombine>(ms[0]); ENSURES("all-combined-once", ms[0]->getVal()==D(want,w2)); for (int k=1;k<n && k<6;k++) ENSURES("others-only-read", ms[k]->getVal()==ds[k]); }
