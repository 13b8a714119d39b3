// Contract language of vtc.  The same file is compiled twice:
//  * to LLVM IR for the verifier, where any<>() is an unconstrained symbolic value, and
//  * natively, where any<>() is read from a replay file or drawn by the failing-input search.
#pragma once
#include <cstdint>
#include <cstddef>
#include <type_traits>

extern "C" {
  uint64_t vtc_any_bits(const char* name, unsigned width);
  double   vtc_any_double(const char* name);
  void*    vtc_any_array(const char* name, uint64_t n, uint64_t elemsize);
  uint64_t vtc_choose(uint64_t n);
  uint64_t vtc_concretize(uint64_t v);
  void     vtc_assume(bool c);
  void     vtc_ensure(bool c, const char* name);
  void     vtc_cover(const char* name);
  void     vtc_stop();
  void     vtc_run_initializers(const char* file);
  int      vtc_symbolic();
  void     vtc_expect_abort(int on);
  void     vtc_print(const char* n, uint64_t v);
  uint64_t vtc_ite(bool c, uint64_t a, uint64_t b);
  [[noreturn]] void vtc_assert_fail(const char* m, const char* file, int line);
  [[noreturn]] void vtc_abort(const char* m, const char* file, int line);
  uint64_t vtc_any_range(const char* name, unsigned width, uint64_t lo, uint64_t hi, int sgn);
}
#define REQUIRES(...)      vtc_assume((__VA_ARGS__))
#define ENSURES(name, ...) vtc_ensure((__VA_ARGS__), name)

namespace vtc {
template <typename T> T any(const char* name) {
  if constexpr (std::is_same_v<T,double>) return vtc_any_double(name);
  else if constexpr (std::is_same_v<T,bool>) return (bool)vtc_any_bits(name,1);
  else if constexpr (std::is_enum_v<T>) return static_cast<T>(static_cast<std::underlying_type_t<T>>(vtc_any_bits(name,8*sizeof(T))));
  else return static_cast<T>(vtc_any_bits(name,8*sizeof(T)));
}
// any value in the closed interval [lo,hi]
template <typename T> T any_in(const char* name, T lo, T hi) {
  if (vtc_symbolic()) { T v = any<T>(name); vtc_assume((v >= lo) & (v <= hi)); return v; }
  return static_cast<T>(vtc_any_range(name, 8*sizeof(T), (uint64_t)(int64_t)lo, (uint64_t)(int64_t)hi, std::is_signed_v<T>));
}
template <typename T> T* any_array(const char* name, uint64_t n) { return static_cast<T*>(vtc_any_array(name,n,sizeof(T))); }
// any object representation
template <typename T> void havoc(T& x, const char* n) {
  auto* p=reinterpret_cast<unsigned char*>(&x); std::size_t i=0;
  for (; i+8<=sizeof(T); i+=8) { uint64_t v=any<uint64_t>(n); __builtin_memcpy(p+i,&v,8); }
  for (; i<sizeof(T); i++) { uint8_t v=any<uint8_t>(n); p[i]=v; }
}
inline uint64_t choose(uint64_t n) { return vtc_choose(n); }
inline bool implies(bool a, bool b) { return !a | b; }
template <typename T> T ite(bool c, T a, T b) { return static_cast<T>(vtc_ite(c,(uint64_t)a,(uint64_t)b)); }
}

#ifdef VTC_NATIVE
namespace vtc { struct Reg { Reg(const char* n, void (*f)()); }; }
#define CONTRACT(name) extern "C" void contract_##name(); \
  static vtc::Reg vtc_reg_##name(#name, contract_##name); extern "C" void contract_##name()
#else
#define CONTRACT(name) extern "C" void contract_##name()
#endif
