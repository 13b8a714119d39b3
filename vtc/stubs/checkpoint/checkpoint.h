// Declarations standing in for the serialization library DARMA/magistrate, which is not present.
// Nothing under contract calls into it; it only lets headers that mention it compile.
#pragma once
#include <cstddef>
#include <cstdint>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>
#include <functional>
#include <optional>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <list>
#include <deque>
#include <queue>
#include <tuple>
#include <array>
#include <thread>
#define magistrate checkpoint
#define magistrate_virtual_serialize_root() template <typename S> void vtc_vs(S&) {}
#define magistrate_virtual_serialize_derived_from(...) template <typename S> void vtc_vs(S&) {}
namespace checkpoint {
struct SERIALIZE_CONSTRUCT_TAG {};
struct Footprinter { std::size_t getMemoryFootprint() const { return 0; } bool isFootprinting() const { return true; } template <typename T> Footprinter& operator|(T&&) { return *this; } template <typename... A> void contiguousBytes(A&&...) {} template <typename... A> void addBytes(A&&...) {} };
struct Sizer { bool isSizing() const { return true; } bool isPacking() const { return false; } bool isUnpacking() const { return false; } std::size_t getSize() const { return 0; } template <typename T> Sizer& operator|(T&&) { return *this; } template <typename... A> void contiguousBytes(A&&...) {} };
template <typename... B> struct PackerBuffer : Sizer {};
template <typename... B> struct UnpackerBuffer : Sizer {};
template <typename S> constexpr bool is_footprinter_v = std::is_same_v<S, Footprinter>;
template <typename S> struct is_footprinter : std::bool_constant<is_footprinter_v<S>> {};
template <typename T, typename = void> struct SerializableTraits {
  static constexpr bool has_serialize_function = true, is_bytecopyable = std::is_trivially_copyable<T>::value, is_serializable = true, is_virtual_serializable=false, has_serialize_noninstrusive=false;
  static constexpr bool is_tagged_constructible = false, is_reconstructible = true, is_default_constructible = true; static constexpr bool is_base_class_serializer=false, is_traversable = true;
  static constexpr bool has_insert_serialize=false;
};
struct SerializedInfo { char* getBuffer() const { return nullptr; } std::size_t getSize() const { return 0; } };
using SerializedReturnType = std::unique_ptr<SerializedInfo>;
using BufferCallbackType = std::function<char*(std::size_t)>;
namespace buffer { struct ImplReturnType {}; }
template <typename T> SerializedReturnType serialize(T&, BufferCallbackType = nullptr);
template <typename T> std::unique_ptr<T> deserialize(char*);
template <typename T> T* deserialize(char*, char*);
template <typename T> std::unique_ptr<T> deserialize(SerializedReturnType&&);
template <typename T> void deserializeInPlace(char*, T*);
template <typename T> std::size_t getSize(T&);
template <typename T> std::size_t getMemoryFootprint(T const&, std::size_t = 0) { return sizeof(T); }
template <typename T> void serializeToFile(T&, std::string const&);
template <typename T> std::unique_ptr<T> deserializeFromFile(std::string const&);
template <typename T> void deserializeInPlaceFromFile(std::string const&, T*);
template <typename T> T* reconstructPointedToObjectIfNeeded(T*& t);
namespace dispatch { template <typename...> struct Reconstructor; template <typename T, typename S> void serializeArray(S&, T*, std::size_t) {}
struct Standard { template <typename... A> static std::size_t size(A&&...) { return 0; } template <typename... A> static void* pack(A&&...) { return nullptr; } template <typename... A> static void* unpack(A&&...) { return nullptr; } template <typename... A> static void* construct(A&&...) { return nullptr; } }; }
struct SerializerRef {}; struct Serializer {};
}
namespace detection {
struct nonesuch {};
namespace impl {
template <typename D, typename V, template <typename...> class Op, typename... A> struct detector { using value_t = std::false_type; using type = D; };
template <typename D, template <typename...> class Op, typename... A> struct detector<D, std::void_t<Op<A...>>, Op, A...> { using value_t = std::true_type; using type = Op<A...>; };
}
template <template <typename...> class Op, typename... A> using is_detected = typename impl::detector<nonesuch,void,Op,A...>::value_t;
template <template <typename...> class Op, typename... A> using detected_t = typename impl::detector<nonesuch,void,Op,A...>::type;
template <typename D, template <typename...> class Op, typename... A> using detected_or_t = typename impl::detector<D,void,Op,A...>::type;
template <typename D, template <typename...> class Op, typename... A> using detected_or = impl::detector<D,void,Op,A...>;
template <typename E, template <typename...> class Op, typename... A> using is_detected_exact = std::is_same<E, detected_t<Op,A...>>;
template <typename T, template <typename...> class Op, typename... A> using is_detected_convertible = std::is_convertible<detected_t<Op,A...>, T>;
}
