// Bit packing: a packed field reads back what was stored, and nothing else in the word changes.
// @assume stored values are taken modulo 2^len: values wider than the field are truncated by contract
#include "vtc.h"
#include "vt/utils/bits/bits_common.h"
using vt::utils::BitPacker;
static uint64_t lowmask(uint64_t len) { return len >= 64 ? ~0ull : ((1ull << (len & 63)) - 1); }

template <typename F, typename B> static void dyn_contract() {
  constexpr int64_t W = sizeof(F)*8;
  using U = std::make_unsigned_t<F>;
  auto start = vtc::any_in<int64_t>("start", 0, W-1);
  auto len   = vtc::any_in<int64_t>("len", 1, W);
  REQUIRES(start + len <= W);
  F field = vtc::any<F>("field");
  B seg   = vtc::any<B>("segment");
  U before = static_cast<U>(field);
  BitPacker::setFieldDynamic<B,F>(start, len, field, seg);
  U after = static_cast<U>(field);
  uint64_t m = lowmask(len) << start;
  uint64_t want = static_cast<uint64_t>(static_cast<U>(static_cast<F>(seg))) & lowmask(len);
  ENSURES("stored-field-holds-the-value", ((static_cast<uint64_t>(after) >> start) & lowmask(len)) == want);
  ENSURES("frame-other-bits-unchanged", (static_cast<uint64_t>(after) & ~m) == (static_cast<uint64_t>(before) & ~m));
  B got = BitPacker::getFieldDynamic<B,F>(start, len, field);
  ENSURES("get-returns-the-stored-value", got == static_cast<B>(want));
  F f2 = field; (void)BitPacker::getFieldDynamic<B,F>(start, len, field);
  ENSURES("get-does-not-modify", f2 == field);
}
CONTRACT(dyn_u8)   { dyn_contract<uint8_t,uint8_t>(); }
CONTRACT(dyn_u16)  { dyn_contract<uint16_t,uint16_t>(); }
CONTRACT(dyn_u32)  { dyn_contract<uint32_t,uint32_t>(); }
CONTRACT(dyn_u64)  { dyn_contract<uint64_t,uint64_t>(); }
CONTRACT(dyn_i8)   { dyn_contract<int8_t,uint8_t>(); }
CONTRACT(dyn_i32)  { dyn_contract<int32_t,uint32_t>(); }
CONTRACT(dyn_i64)  { dyn_contract<int64_t,uint64_t>(); }
CONTRACT(dyn_u64_node)  { dyn_contract<uint64_t,int16_t>(); }
CONTRACT(dyn_u64_small) { dyn_contract<uint64_t,uint8_t>(); }

// reading an arbitrary word (not one produced by set)
template <typename F, typename B> static void get_contract() {
  constexpr int64_t W = sizeof(F)*8;
  using U = std::make_unsigned_t<F>;
  auto start = vtc::any_in<int64_t>("start", 0, W-1);
  auto len   = vtc::any_in<int64_t>("len", 1, W);
  REQUIRES(start + len <= W);
  F field = vtc::any<F>("field");
  B got = BitPacker::getFieldDynamic<B,F>(start, len, field);
  ENSURES("get-reads-exactly-the-field", got == static_cast<B>((static_cast<uint64_t>(static_cast<U>(field)) >> start) & lowmask(len)));
}
CONTRACT(get_u8)  { get_contract<uint8_t,uint8_t>(); }
CONTRACT(get_u16) { get_contract<uint16_t,uint16_t>(); }
CONTRACT(get_u32) { get_contract<uint32_t,uint32_t>(); }
CONTRACT(get_u64) { get_contract<uint64_t,uint64_t>(); }
CONTRACT(get_i32) { get_contract<int32_t,uint32_t>(); }
CONTRACT(get_i64) { get_contract<int64_t,uint64_t>(); }

template <int64_t start, typename F> static void bool_contract() {
  F field = vtc::any<F>("field"); bool v = vtc::any<bool>("v");
  using U = std::make_unsigned_t<F>;
  U before = static_cast<U>(field);
  BitPacker::boolSetField<start>(field, v);
  U after = static_cast<U>(field);
  U bit = static_cast<U>(1) << start;
  ENSURES("bool-field-holds-the-value", BitPacker::boolGetField<start>(field) == v);
  ENSURES("bool-bit-is-the-named-bit", ((after & bit) != 0) == v);
  ENSURES("bool-frame-other-bits-unchanged", (after & static_cast<U>(~bit)) == (before & static_cast<U>(~bit)));
}
template <typename F, int64_t... I> static void bools(std::integer_sequence<int64_t,I...>) {
  auto k = vtc::choose(sizeof...(I)); uint64_t j = 0;
  ((j++ == k ? bool_contract<I,F>() : void()), ...);
}
CONTRACT(bool_u64) { bools<uint64_t>(std::make_integer_sequence<int64_t,64>{}); }
CONTRACT(bool_u32) { bools<uint32_t>(std::make_integer_sequence<int64_t,32>{}); }
CONTRACT(bool_i8)  { bools<int8_t>(std::make_integer_sequence<int64_t,8>{}); }
// two disjoint static fields of one word are independent
CONTRACT(static_fields) {
  uint64_t w = vtc::any<uint64_t>("w"); uint16_t a = vtc::any<uint16_t>("a"); uint32_t b = vtc::any<uint32_t>("b");
  BitPacker::setField<3,16,uint16_t>(w, a);
  BitPacker::setField<19,32,uint32_t>(w, b);
  ENSURES("disjoint-fields-independent", (BitPacker::getField<3,16,uint16_t>(w) == a) & (BitPacker::getField<19,32,uint32_t>(w) == b));
}
