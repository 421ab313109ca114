// Stand-in for DARMA/magistrate (checkpoint), which is not available offline.
// It implements the part of magistrate's API that vt uses, with the same
// observable contract (round-trip of values, sizes, virtual dispatch).
#ifndef VERIF_SHIM_CHECKPOINT_H
#define VERIF_SHIM_CHECKPOINT_H

#include "checkpoint/detector.h"

#include <array>
#include <atomic>
#include <bitset>
#include <chrono>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <forward_list>
#include <functional>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <queue>
#include <set>
#include <stack>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

namespace checkpoint {

struct SERIALIZE_CONSTRUCT_TAG {};

using SerialSizeType = std::size_t;
using SerialByteType = char;

enum struct ModeEnum { Sizing, Packing, Unpacking, Footprinting };

// ---------------------------------------------------------------- serializers

struct SerializerMark {};

template <ModeEnum M>
struct BaseSerializer : SerializerMark {
  static constexpr bool isSizing() { return M == ModeEnum::Sizing; }
  static constexpr bool isPacking() { return M == ModeEnum::Packing; }
  static constexpr bool isUnpacking() { return M == ModeEnum::Unpacking; }
  static constexpr bool isFootprinting() { return M == ModeEnum::Footprinting; }
  void setVirtualDisabled(bool v) { virtual_disabled_ = v; }
  bool isVirtualDisabled() const { return virtual_disabled_; }
  template <typename T> void skip(T const&) {}
  template <typename T> void countBytes(T const&) {}
  void addBytes(SerialSizeType) {}

private:
  bool virtual_disabled_ = false;
};

struct Sizer : BaseSerializer<ModeEnum::Sizing> {
  void contiguousBytes(void*, SerialSizeType size, SerialSizeType n) {
    size_ += size * n;
  }
  SerialSizeType getSize() const { return size_; }
private:
  SerialSizeType size_ = 0;
};

struct Packer : BaseSerializer<ModeEnum::Packing> {
  explicit Packer(char* buf, SerialSizeType cap)
    : cur_(buf), start_(buf), cap_(cap) {}
  void contiguousBytes(void* p, SerialSizeType size, SerialSizeType n) {
    auto const len = size * n;
    if (static_cast<SerialSizeType>(cur_ - start_) + len > cap_) {
      std::fprintf(stderr, "magistrate-shim: packing past the computed size\n");
      std::abort();
    }
    if (len) std::memcpy(cur_, p, len);
    cur_ += len;
  }
  SerialSizeType usedBufferSize() const { return cur_ - start_; }
private:
  char* cur_;
  char* start_;
  SerialSizeType cap_;
};

struct Unpacker : BaseSerializer<ModeEnum::Unpacking> {
  explicit Unpacker(char const* buf) : cur_(buf), start_(buf) {}
  void contiguousBytes(void* p, SerialSizeType size, SerialSizeType n) {
    auto const len = size * n;
    if (len) std::memcpy(p, cur_, len);
    cur_ += len;
  }
  SerialSizeType usedBufferSize() const { return cur_ - start_; }
private:
  char const* cur_;
  char const* start_;
};

struct Footprinter : BaseSerializer<ModeEnum::Footprinting> {
  void contiguousBytes(void*, SerialSizeType size, SerialSizeType n) {
    bytes_ += size * n;
  }
  template <typename T> void countBytes(T const& t) { bytes_ += sizeof(t); }
  void addBytes(SerialSizeType n) { bytes_ += n; }
  SerialSizeType getMemoryFootprint() const { return bytes_; }
private:
  SerialSizeType bytes_ = 0;
};

template <typename S>
inline constexpr bool is_serializer_v =
  std::is_base_of<SerializerMark, std::remove_cv_t<S>>::value;
template <typename S>
inline constexpr bool is_footprinter_v = std::is_same<S, Footprinter>::value;
template <typename S>
inline constexpr bool is_sizer_v = std::is_same<S, Sizer>::value;
template <typename S>
inline constexpr bool is_packer_v = std::is_same<S, Packer>::value;
template <typename S>
inline constexpr bool is_unpacker_v = std::is_same<S, Unpacker>::value;

template <typename S>
using enable_ser = std::enable_if_t<is_serializer_v<S>, int>;
template <typename S>
using enable_foot = std::enable_if_t<is_footprinter_v<S>, int>;

template <typename S, typename T, enable_ser<S> = 0>
inline S& operator|(S& s, T const& t);

// ---------------------------------------------------- non-intrusive overloads

#define VS_DECL(...) template <typename S, __VA_ARGS__, enable_ser<S> = 0>

VS_DECL(typename T, typename A) void serialize(S&, std::vector<T, A>&);
VS_DECL(typename A) void serialize(S&, std::vector<bool, A>&);
VS_DECL(typename C, typename Tr, typename A) void serialize(S&, std::basic_string<C, Tr, A>&);
VS_DECL(typename T, typename A) void serialize(S&, std::list<T, A>&);
VS_DECL(typename T, typename A) void serialize(S&, std::deque<T, A>&);
VS_DECL(typename T, typename C) void serialize(S&, std::queue<T, C>&);
VS_DECL(typename T, typename C) void serialize(S&, std::stack<T, C>&);
VS_DECL(typename T, typename C, typename P) void serialize(S&, std::priority_queue<T, C, P>&);
VS_DECL(typename T, std::size_t N) void serialize(S&, std::array<T, N>&);
VS_DECL(typename K, typename V, typename C, typename A) void serialize(S&, std::map<K, V, C, A>&);
VS_DECL(typename K, typename V, typename C, typename A) void serialize(S&, std::multimap<K, V, C, A>&);
VS_DECL(typename K, typename V, typename H, typename E, typename A) void serialize(S&, std::unordered_map<K, V, H, E, A>&);
VS_DECL(typename K, typename V, typename H, typename E, typename A) void serialize(S&, std::unordered_multimap<K, V, H, E, A>&);
VS_DECL(typename K, typename C, typename A) void serialize(S&, std::set<K, C, A>&);
VS_DECL(typename K, typename C, typename A) void serialize(S&, std::multiset<K, C, A>&);
VS_DECL(typename K, typename H, typename E, typename A) void serialize(S&, std::unordered_set<K, H, E, A>&);
VS_DECL(typename A, typename B) void serialize(S&, std::pair<A, B>&);
VS_DECL(typename... Ts) void serialize(S&, std::tuple<Ts...>&);
VS_DECL(typename... Ts) void serialize(S&, std::variant<Ts...>&);
VS_DECL(typename T) void serialize(S&, std::optional<T>&);
VS_DECL(typename T, typename D) void serialize(S&, std::unique_ptr<T, D>&);
VS_DECL(typename T) void serialize(S&, std::shared_ptr<T>&);
VS_DECL(typename T) void serialize(S&, std::atomic<T>&);
VS_DECL(typename T) void serialize(S&, std::complex<T>&);
VS_DECL(std::size_t N) void serialize(S&, std::bitset<N>&);
VS_DECL(typename R, typename P) void serialize(S&, std::chrono::duration<R, P>&);

template <typename S, typename F, enable_foot<S> = 0> void serialize(S& s, std::function<F>& f) { s.countBytes(f); }
template <typename S, enable_foot<S> = 0> void serialize(S& s, std::mutex& m) { s.countBytes(m); }
template <typename S, typename T, enable_foot<S> = 0> void serialize(S& s, std::weak_ptr<T>& m) { s.countBytes(m); }
template <typename S, enable_foot<S> = 0> void serialize(S& s, FILE*& m) { s.countBytes(m); }

// --------------------------------------------------------------------- traits

namespace traits {

template <typename T> using byte_trait_t = typename T::isByteCopyable;

template <typename T, typename = void>
struct ByteTrait : std::false_type {};
template <typename T>
struct ByteTrait<T, std::void_t<byte_trait_t<T>>>
  : std::is_same<typename T::isByteCopyable, std::true_type> {};

template <typename T>
struct is_bytecopy : std::integral_constant<bool,
  std::is_arithmetic<T>::value or std::is_enum<T>::value or ByteTrait<T>::value
> {};

template <typename T, typename S, typename = void>
struct has_member : std::false_type {};
template <typename T, typename S>
struct has_member<T, S, std::void_t<
  decltype(std::declval<T&>().serialize(std::declval<S&>()))>> : std::true_type {};

template <typename T, typename S, typename = void>
struct has_free : std::false_type {};
template <typename T, typename S>
struct has_free<T, S, std::void_t<
  decltype(serialize(std::declval<S&>(), std::declval<T&>()))>> : std::true_type {};

template <typename T, typename = void>
struct has_virtual : std::false_type {};
template <typename T>
struct has_virtual<T, std::void_t<typename T::VerifShimVirtualRoot>> : std::true_type {};

template <typename T, typename = void>
struct has_tag_cons : std::false_type {};
template <typename T>
struct has_tag_cons<T, std::void_t<
  decltype(T(std::declval<SERIALIZE_CONSTRUCT_TAG>()))>>
  : std::is_constructible<T, SERIALIZE_CONSTRUCT_TAG> {};

template <typename T, typename = void>
struct has_reconstruct : std::false_type {};
template <typename T>
struct has_reconstruct<T, std::void_t<
  decltype(T::reconstruct(std::declval<void*>()))>> : std::true_type {};

} // namespace traits

template <typename T, typename S = Sizer>
struct SerializableTraits {
  static constexpr bool has_serialize_instrusive = traits::has_member<T, S>::value;
  static constexpr bool has_serialize_intrusive = has_serialize_instrusive;
  static constexpr bool has_serialize_noninstrusive = traits::has_free<T, S>::value;
  static constexpr bool has_serialize_function =
    has_serialize_instrusive or has_serialize_noninstrusive;
  static constexpr bool is_bytecopyable = traits::is_bytecopy<T>::value;
  static constexpr bool is_serializable = has_serialize_function or is_bytecopyable;
};

// ------------------------------------------------------------ reconstruction

template <typename T>
T* constructAt(void* mem) {
  if constexpr (traits::has_reconstruct<T>::value) {
    return &T::reconstruct(mem);
  } else if constexpr (traits::has_tag_cons<T>::value and not std::is_arithmetic_v<T>) {
    return new (mem) T(SERIALIZE_CONSTRUCT_TAG{});
  } else {
    return new (mem) T{};
  }
}

template <typename T>
T* allocateConstruct() {
  void* mem = ::operator new(sizeof(T), std::align_val_t{
    alignof(T) < __STDCPP_DEFAULT_NEW_ALIGNMENT__
      ? std::size_t{__STDCPP_DEFAULT_NEW_ALIGNMENT__} : alignof(T)});
  return constructAt<T>(mem);
}

// ------------------------------------------------------ virtual serialization

namespace vs {

using AllocFn = void* (*)();

// One table for all polymorphic types of the binary; the indices depend only
// on the binary, so every rank agrees on them.
inline std::vector<AllocFn>& table() {
  static std::vector<AllocFn> t;
  return t;
}

template <typename T>
void* allocImpl() {
  if constexpr (std::is_abstract_v<T>) {
    return nullptr;
  } else {
    return allocateConstruct<T>();
  }
}

template <typename T, typename RootT>
void* allocAsRoot() {
  if constexpr (std::is_abstract_v<T>) {
    return nullptr;
  } else {
    return static_cast<RootT*>(static_cast<T*>(allocImpl<T>()));
  }
}

template <typename T, typename RootT>
struct Reg {
  static int const idx;
};
template <typename T, typename RootT>
int const Reg<T, RootT>::idx = [] {
  table().push_back(&allocAsRoot<T, RootT>);
  return static_cast<int>(table().size()) - 1;
}();

struct AnySer {
  ModeEnum mode;
  void* ser;
};

template <typename T>
void callSerialize(T* t, AnySer s) {
  switch (s.mode) {
  case ModeEnum::Sizing: t->serialize(*static_cast<Sizer*>(s.ser)); break;
  case ModeEnum::Packing: t->serialize(*static_cast<Packer*>(s.ser)); break;
  case ModeEnum::Unpacking: t->serialize(*static_cast<Unpacker*>(s.ser)); break;
  case ModeEnum::Footprinting:
    t->serialize(*static_cast<Footprinter*>(s.ser)); break;
  }
}

template <typename S> constexpr ModeEnum modeOf() {
  return S::isSizing() ? ModeEnum::Sizing
    : S::isPacking() ? ModeEnum::Packing
    : S::isUnpacking() ? ModeEnum::Unpacking : ModeEnum::Footprinting;
}

template <typename D> using decay_self = std::remove_cv_t<std::remove_reference_t<D>>;

} // namespace vs

#define magistrate_virtual_serialize_root()                                    \
  using VerifShimVirtualRoot = void;                                           \
  virtual void* verifShimRootPtr() { return static_cast<void*>(this); }        \
  virtual int verifShimTypeIdx() const {                                       \
    using T_ = ::checkpoint::vs::decay_self<decltype(*this)>;                  \
    return ::checkpoint::vs::Reg<T_, T_>::idx;                                 \
  }                                                                            \
  virtual void verifShimSerialize(::checkpoint::vs::AnySer s_) {               \
    using T_ = ::checkpoint::vs::decay_self<decltype(*this)>;                  \
    ::checkpoint::vs::callSerialize<T_>(this, s_);                             \
  }

#define magistrate_virtual_serialize_derived_from(BASE)                        \
  int verifShimTypeIdx() const override {                                      \
    using T_ = ::checkpoint::vs::decay_self<decltype(*this)>;                  \
    return ::checkpoint::vs::Reg<T_, BASE>::idx;                               \
  }                                                                            \
  void verifShimSerialize(::checkpoint::vs::AnySer s_) override {              \
    using T_ = ::checkpoint::vs::decay_self<decltype(*this)>;                  \
    BASE::verifShimSerialize(s_);                                              \
    ::checkpoint::vs::callSerialize<T_>(this, s_);                             \
  }

#define checkpoint_virtual_serialize_root magistrate_virtual_serialize_root
#define checkpoint_virtual_serialize_derived_from \
  magistrate_virtual_serialize_derived_from

// ------------------------------------------------------------------- dispatch

namespace dispatch {

template <typename T> struct is_pointerish : std::is_pointer<T> {};

template <typename S, typename T>
void serializeOne(S& s, T& t) {
  if constexpr (std::is_array_v<T>) {
    for (auto& e : t) serializeOne(s, e);
  } else if constexpr (traits::is_bytecopy<T>::value) {
    s.contiguousBytes(
      const_cast<void*>(static_cast<void const volatile*>(&t)), sizeof(T), 1
    );
  } else if constexpr (traits::has_virtual<T>::value) {
    if (s.isVirtualDisabled()) {
      t.serialize(s);
    } else {
      t.verifShimSerialize(vs::AnySer{vs::modeOf<S>(), &s});
    }
  } else if constexpr (traits::has_member<T, S>::value) {
    t.serialize(s);
  } else if constexpr (traits::has_free<T, S>::value) {
    serialize(s, t);
  } else if constexpr (is_footprinter_v<S>) {
    s.countBytes(t);
    if constexpr (std::is_pointer_v<T>) {
      using P = std::remove_cv_t<std::remove_pointer_t<T>>;
      if constexpr (not std::is_function_v<P> and not std::is_void_v<P> and
                    SerializableTraits<P, Footprinter>::is_serializable) {
        if (t) serializeOne(s, const_cast<P&>(*t));
      }
    }
  } else {
    static_assert(traits::has_member<T, S>::value, "Type is not serializable");
  }
}

template <typename S, typename T>
void serializeArray(S& s, T* p, std::size_t n) {
  if constexpr (traits::is_bytecopy<std::remove_cv_t<T>>::value) {
    s.contiguousBytes(const_cast<void*>(static_cast<void const*>(p)), sizeof(T), n);
  } else {
    for (std::size_t i = 0; i < n; i++) serializeOne(s, p[i]);
  }
}

} // namespace dispatch

template <typename S, typename T, enable_ser<S>>
inline S& operator|(S& s, T const& t) {
  dispatch::serializeOne(s, const_cast<T&>(t));
  return s;
}
template <typename S, typename T, enable_ser<S> = 0>
inline S& operator<<(S& s, T const& t) { return s | t; }
template <typename S, typename T, enable_ser<S> = 0>
inline S& operator>>(S& s, T const& t) { return s | t; }

// ------------------------------------------------- container implementations

namespace detail_impl {

template <typename S>
std::size_t size(S& s, std::size_t n) {
  s.contiguousBytes(&n, sizeof(n), 1);
  return n;
}

template <typename T>
struct Holder { // a default value or a reconstructed one
  T* p;
  Holder() : p(allocateConstruct<T>()) {}
  ~Holder() { p->~T(); ::operator delete(p, std::align_val_t{
    alignof(T) < __STDCPP_DEFAULT_NEW_ALIGNMENT__
      ? std::size_t{__STDCPP_DEFAULT_NEW_ALIGNMENT__} : alignof(T)}); }
};

template <typename S, typename C, typename E, typename Ins>
void assoc(S& s, C& c, Ins ins) {
  auto n = size(s, c.size());
  if constexpr (is_unpacker_v<S>) {
    c.clear();
    for (std::size_t i = 0; i < n; i++) {
      Holder<E> h;
      s | *h.p;
      ins(c, std::move(*h.p));
    }
  } else {
    for (auto& e : c) s | e;
  }
}

} // namespace detail_impl

#define VS_IMPL(...) template <typename S, __VA_ARGS__, enable_ser<S>>

VS_IMPL(typename T, typename A) void serialize(S& s, std::vector<T, A>& v) {
  auto n = detail_impl::size(s, v.size());
  if constexpr (is_unpacker_v<S>) {
    if constexpr (std::is_default_constructible_v<T> and std::is_copy_constructible_v<T>) {
      v.clear();
      v.resize(n);
    } else {
      v.clear();
      v.reserve(n);
      for (std::size_t i = 0; i < n; i++) {
        detail_impl::Holder<T> h;
        s | *h.p;
        v.emplace_back(std::move(*h.p));
      }
      return;
    }
  }
  dispatch::serializeArray(s, v.data(), n);
}
VS_IMPL(typename A) void serialize(S& s, std::vector<bool, A>& v) {
  auto n = detail_impl::size(s, v.size());
  if constexpr (is_unpacker_v<S>) { v.clear(); v.resize(n); }
  for (std::size_t i = 0; i < n; i++) {
    bool b = v[i];
    s | b;
    v[i] = b;
  }
}
VS_IMPL(typename C, typename Tr, typename A) void serialize(S& s, std::basic_string<C, Tr, A>& v) {
  auto n = detail_impl::size(s, v.size());
  if constexpr (is_unpacker_v<S>) { v.clear(); v.resize(n); }
  if (n) s.contiguousBytes(&v[0], sizeof(C), n);
}
#define VS_SEQ(...)                                                            \
  {                                                                            \
    using T_ = typename __VA_ARGS__::value_type;                               \
    auto n = detail_impl::size(s, v.size());                                   \
    if constexpr (is_unpacker_v<S>) {                                          \
      v.clear();                                                               \
      for (std::size_t i = 0; i < n; i++) {                                    \
        detail_impl::Holder<T_> h;                                             \
        s | *h.p;                                                              \
        v.emplace_back(std::move(*h.p));                                       \
      }                                                                        \
    } else {                                                                   \
      for (auto& e : v) s | e;                                                 \
    }                                                                          \
  }
VS_IMPL(typename T, typename A) void serialize(S& s, std::list<T, A>& v) VS_SEQ(std::list<T, A>)
VS_IMPL(typename T, typename A) void serialize(S& s, std::deque<T, A>& v) VS_SEQ(std::deque<T, A>)
VS_IMPL(typename T, typename C) void serialize(S& s, std::queue<T, C>& v) {
  struct Q : std::queue<T, C> { static C& get(std::queue<T, C>& q) { return q.*&Q::c; } };
  s | Q::get(v);
}
VS_IMPL(typename T, typename C) void serialize(S& s, std::stack<T, C>& v) {
  struct Q : std::stack<T, C> { static C& get(std::stack<T, C>& q) { return q.*&Q::c; } };
  s | Q::get(v);
}
VS_IMPL(typename T, typename C, typename P) void serialize(S& s, std::priority_queue<T, C, P>& v) {
  struct Q : std::priority_queue<T, C, P> {
    static C& get(std::priority_queue<T, C, P>& q) { return q.*&Q::c; }
  };
  s | Q::get(v);
}
VS_IMPL(typename T, std::size_t N) void serialize(S& s, std::array<T, N>& v) {
  dispatch::serializeArray(s, v.data(), N);
}
VS_IMPL(typename K, typename V, typename C, typename A) void serialize(S& s, std::map<K, V, C, A>& c) {
  detail_impl::assoc<S, std::map<K, V, C, A>, std::pair<K, V>>(s, c, [](auto& m, auto&& e) { m.emplace(std::move(e.first), std::move(e.second)); });
}
VS_IMPL(typename K, typename V, typename C, typename A) void serialize(S& s, std::multimap<K, V, C, A>& c) {
  detail_impl::assoc<S, std::multimap<K, V, C, A>, std::pair<K, V>>(s, c, [](auto& m, auto&& e) { m.emplace(std::move(e.first), std::move(e.second)); });
}
VS_IMPL(typename K, typename V, typename H, typename E, typename A) void serialize(S& s, std::unordered_map<K, V, H, E, A>& c) {
  detail_impl::assoc<S, std::unordered_map<K, V, H, E, A>, std::pair<K, V>>(s, c, [](auto& m, auto&& e) { m.emplace(std::move(e.first), std::move(e.second)); });
}
VS_IMPL(typename K, typename V, typename H, typename E, typename A) void serialize(S& s, std::unordered_multimap<K, V, H, E, A>& c) {
  detail_impl::assoc<S, std::unordered_multimap<K, V, H, E, A>, std::pair<K, V>>(s, c, [](auto& m, auto&& e) { m.emplace(std::move(e.first), std::move(e.second)); });
}
VS_IMPL(typename K, typename C, typename A) void serialize(S& s, std::set<K, C, A>& c) {
  detail_impl::assoc<S, std::set<K, C, A>, K>(s, c, [](auto& m, auto&& e) { m.emplace(std::move(e)); });
}
VS_IMPL(typename K, typename C, typename A) void serialize(S& s, std::multiset<K, C, A>& c) {
  detail_impl::assoc<S, std::multiset<K, C, A>, K>(s, c, [](auto& m, auto&& e) { m.emplace(std::move(e)); });
}
VS_IMPL(typename K, typename H, typename E, typename A) void serialize(S& s, std::unordered_set<K, H, E, A>& c) {
  detail_impl::assoc<S, std::unordered_set<K, H, E, A>, K>(s, c, [](auto& m, auto&& e) { m.emplace(std::move(e)); });
}
VS_IMPL(typename A, typename B) void serialize(S& s, std::pair<A, B>& p) {
  s | p.first;
  s | p.second;
}
VS_IMPL(typename... Ts) void serialize(S& s, std::tuple<Ts...>& t) {
  std::apply([&](auto&... e) { ((void)(s | e), ...); }, t);
}
VS_IMPL(typename... Ts) void serialize(S& s, std::variant<Ts...>& v) {
  auto n = detail_impl::size(s, v.index());
  if constexpr (is_unpacker_v<S>) {
    std::size_t i = 0;
    (void)std::initializer_list<int>{
      (i++ == n ? (v = std::variant<Ts...>(std::in_place_type<Ts>), 0) : 0)...};
  }
  std::visit([&](auto& e) { s | e; }, v);
}
VS_IMPL(typename T) void serialize(S& s, std::optional<T>& v) {
  bool has = v.has_value();
  s | has;
  if constexpr (is_unpacker_v<S>) {
    v.reset();
    if (has) {
      detail_impl::Holder<T> h;
      s | *h.p;
      v.emplace(std::move(*h.p));
    }
  } else if (has) {
    s | *v;
  }
}
template <typename T, typename S>
T* ptrBody(S& s, T* in) {
  bool null = in == nullptr;
  s | null;
  if (null) return nullptr;
  if constexpr (std::is_void_v<T>) {
    return in;
  } else if constexpr (traits::has_virtual<T>::value) {
    int idx = is_unpacker_v<S> ? 0 : in->verifShimTypeIdx();
    s | idx;
    T* p = in;
    if constexpr (is_unpacker_v<S>) p = static_cast<T*>(vs::table().at(idx)());
    p->verifShimSerialize(vs::AnySer{vs::modeOf<S>(), &s});
    return p;
  } else {
    T* p = in;
    if constexpr (is_unpacker_v<S>) p = allocateConstruct<T>();
    s | *p;
    return p;
  }
}
VS_IMPL(typename T, typename D) void serialize(S& s, std::unique_ptr<T, D>& v) {
  if constexpr (is_unpacker_v<S>) {
    v.reset(ptrBody<T, S>(s, reinterpret_cast<T*>(8)));
  } else if constexpr (is_footprinter_v<S> and
    (std::is_void_v<T> or not SerializableTraits<T, Footprinter>::is_serializable)) {
    s.countBytes(v);
  } else {
    ptrBody<T, S>(s, v.get());
  }
}
VS_IMPL(typename T) void serialize(S& s, std::shared_ptr<T>& v) {
  if constexpr (is_unpacker_v<S>) {
    v.reset(ptrBody<T, S>(s, reinterpret_cast<T*>(8)));
  } else if constexpr (is_footprinter_v<S> and
    (std::is_void_v<T> or not SerializableTraits<T, Footprinter>::is_serializable)) {
    s.countBytes(v);
  } else {
    ptrBody<T, S>(s, v.get());
  }
}
VS_IMPL(typename T) void serialize(S& s, std::atomic<T>& v) {
  T t = v.load();
  s | t;
  v.store(t);
}
VS_IMPL(typename T) void serialize(S& s, std::complex<T>& v) {
  s.contiguousBytes(&v, sizeof(v), 1);
}
VS_IMPL(std::size_t N) void serialize(S& s, std::bitset<N>& v) {
  s.contiguousBytes(&v, sizeof(v), 1);
}
VS_IMPL(typename R, typename P) void serialize(S& s, std::chrono::duration<R, P>& v) {
  s.contiguousBytes(&v, sizeof(v), 1);
}

// Reconstruct an object behind a raw pointer while unpacking.
template <typename S, typename T>
void reconstructPointedToObjectIfNeeded(S& s, T*& p) {
  if constexpr (traits::has_virtual<T>::value) {
    int idx = is_unpacker_v<S> ? 0 : p->verifShimTypeIdx();
    s | idx;
    if constexpr (is_unpacker_v<S>) p = static_cast<T*>(vs::table().at(idx)());
  } else if constexpr (is_unpacker_v<S>) {
    p = allocateConstruct<T>();
  } else {
    (void)s;
  }
}

// ------------------------------------------------------------------ interface

struct SerializedInfo {
  SerializedInfo(char* b, std::size_t n, bool own) : buf_(b), n_(n), own_(own) {}
  SerializedInfo(SerializedInfo const&) = delete;
  ~SerializedInfo() { if (own_) delete[] buf_; }
  char* getBuffer() const { return buf_; }
  std::size_t getSize() const { return n_; }
private:
  char* buf_;
  std::size_t n_;
  bool own_;
};
using SerializedReturnType = std::unique_ptr<SerializedInfo>;
using BufferObtainFnType = std::function<char*(std::size_t)>;

template <typename T>
std::size_t getSize(T& t) {
  Sizer s;
  s | t;
  return s.getSize();
}

template <typename T>
SerializedReturnType serialize(T& t, BufferObtainFnType fn = nullptr) {
  auto const n = getSize<T>(t);
  char* buf = fn ? fn(n) : new char[n ? n : 1];
  Packer p(buf, n);
  p | t;
  if (p.usedBufferSize() != n) {
    std::fprintf(stderr, "magistrate-shim: sizing and packing disagree\n");
    std::abort();
  }
  return std::make_unique<SerializedInfo>(buf, n, not fn);
}

template <typename T>
void deserializeInPlace(char const* buf, T* t) {
  Unpacker u(buf);
  u | *t;
}

template <typename T>
T* deserialize(char* buf, char* object_buf) {
  T* t = constructAt<T>(object_buf);
  deserializeInPlace<T>(buf, t);
  return t;
}

template <typename T>
std::unique_ptr<T> deserialize(char const* buf) {
  T* t = allocateConstruct<T>();
  deserializeInPlace<T>(buf, t);
  return std::unique_ptr<T>(t);
}

template <typename T>
std::size_t getMemoryFootprint(T& t, std::size_t extra = 0) {
  Footprinter f;
  f | t;
  return f.getMemoryFootprint() + extra;
}
template <typename T>
std::size_t getMemoryFootprint(T const& t, std::size_t extra = 0) {
  return getMemoryFootprint(const_cast<T&>(t), extra);
}

template <typename T>
void serializeToFile(T& t, std::string const& file) {
  auto r = serialize<T>(t);
  FILE* f = std::fopen(file.c_str(), "wb");
  if (not f) throw std::runtime_error("magistrate-shim: cannot open " + file);
  auto n = std::fwrite(r->getBuffer(), 1, r->getSize(), f);
  auto bad = n != r->getSize();
  bad |= std::fclose(f) != 0;
  if (bad) throw std::runtime_error("magistrate-shim: cannot write " + file);
}

inline std::vector<char> slurpFile(std::string const& file) {
  FILE* f = std::fopen(file.c_str(), "rb");
  if (not f) throw std::runtime_error("magistrate-shim: cannot open " + file);
  std::vector<char> b;
  char tmp[4096];
  std::size_t n;
  while ((n = std::fread(tmp, 1, sizeof tmp, f)) > 0) b.insert(b.end(), tmp, tmp + n);
  std::fclose(f);
  return b;
}

template <typename T>
std::unique_ptr<T> deserializeFromFile(std::string const& file) {
  auto b = slurpFile(file);
  return deserialize<T>(b.data());
}

template <typename T>
void deserializeInPlaceFromFile(std::string const& file, T* t) {
  auto b = slurpFile(file);
  deserializeInPlace<T>(b.data(), t);
}

} // namespace checkpoint

namespace magistrate = checkpoint;

#endif
