// Contract of StrongIntegralSet (established for the real class by C08), used where a caller is checked against
// the contract instead of the body: the set of its members (a total predicate) and their number.
#pragma once
#include "vtc.h"
#include "vt/termination/interval/integral_set.h"
namespace vt {
template <typename T> struct StrongIntegralSet {
  using ImplType=typename T::ImplType;
  uint8_t* in=nullptr; std::size_t n=0;     // in[v]!=0: v is a member
  bool has(ImplType v) const { return in[v]!=0; }
  template <typename U> void insert(U&& t) { ImplType v=*t; n+=vtc::ite<std::size_t>(has(v),0,1); in[v]=1; }
  template <typename I> void insertInterval(I&& i) { }    // only in the constructor, replaced by the contract's precondition
  void erase(T const& t) { vtc_ensure(has(*t),"erased-value-is-a-member"); in[*t]=0; n--; }
  bool contains(T const& t) const { return has(*t); }
  bool exists(T const& t) const { return has(*t); }
  bool empty() const { return n==0; }
  std::size_t size() const { return n; }
  std::size_t compressedSize() const { return vtc::any<std::size_t>("intervals"); }
  T lower() const { return T{vtc::any<ImplType>("lower")}; }
  T upper() const { return T{vtc::any<ImplType>("upper")}; }
  float compression() const { return 1.0f; }
  void dumpState() const {}
};
}
