// A simulated Python interpreter behind the interface of pybind11, for the code of a pybind11 module
// to be compiled against and run with. Python values are counted references: a value dies with its
// last reference, at a point the simulator chooses. Conversions, return value policies, keep_alive,
// overload resolution, identity of wrapped instances and exceptions follow pybind11's documentation.
#ifndef SIM_PYSTUB_PYBIND11_H_
#define SIM_PYSTUB_PYBIND11_H_

#include <array>
#include <complex>
#include <cstdint>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#include "engine/sim.h"

// ---------------------------------------------------------------------------------- interpreter
namespace simpy {

struct Value;
using Ref = std::shared_ptr<Value>;

enum Kind { kNone, kBool, kInt, kFloat, kStr, kList, kTuple, kSet, kDict, kArray, kObject };

struct Overload;
struct Type {
  std::string name;
  std::type_index id = typeid(void);
  std::type_index holder = typeid(void);
  std::map<std::string, std::vector<Overload>> methods;  // __init__, methods and static methods
  std::map<std::string, std::pair<Overload, std::optional<Overload>>> properties;
  std::shared_ptr<void> (*share)(void*) = nullptr;        // takes ownership
};

struct Value : std::enable_shared_from_this<Value> {
  Kind kind = kNone;
  bool b = false;
  __int128 i = 0;
  double f = 0;
  std::string s;
  std::vector<Ref> items;  // list, tuple, set; dict: key, value, key, value ...
  std::vector<bool> array;
  // kObject
  Type* type = nullptr;
  void* ptr = nullptr;
  std::shared_ptr<void> owned;
  std::vector<Ref> patients;  // kept alive as long as this value lives
  explicit Value(Kind k) : kind(k) {}
  Value(const Value&) = delete;
  ~Value();
  void Unregister();
};

struct PyError : std::exception {
  std::string kind, message, text;
  PyError(const std::string& k, const std::string& m) : kind(k), message(m), text(k + ": " + m) {}
  const char* what() const noexcept override { return text.c_str(); }
};

struct Record {  // a parameter
  std::string name;
  Ref value;  // default
};
struct Overload {
  std::string name;
  bool method = false, is_static = false;
  size_t nargs = 0;
  std::vector<Record> records;  // without self
  // Nothing when an argument cannot be converted.
  std::function<std::optional<Ref>(std::vector<Ref>& args, bool convert)> impl;
  std::vector<std::pair<size_t, size_t>> keep;  // nurse, patient
};

struct Interpreter {
  std::map<std::type_index, Type*> types;
  std::map<std::string, Type*> by_name;
  std::map<std::string, std::vector<Overload>> functions;
  std::vector<std::unique_ptr<Type>> storage;
  std::unordered_multimap<const void*, Value*> instances;
  uint64_t calls = 0, instances_made = 0, shared_instances = 0, keeps = 0;
};
inline Interpreter& Py() {
  static Interpreter* py = new Interpreter;
  return *py;
}

// The interpreter's tables outlive the runs: what they allocate is not part of a run.
inline void Value::Unregister() {
  sim::Outside outside;
  auto range = Py().instances.equal_range(ptr);
  for (auto it = range.first; it != range.second; ++it)
    if (it->second == this) {
      Py().instances.erase(it);
      break;
    }
}
inline Value::~Value() {
  if (kind != kObject) return;
  Unregister();
  owned.reset();     // the wrapped value first,
  patients.clear();  // then what it may refer to
}

inline Ref New(Kind k) { return std::make_shared<Value>(k); }
inline Ref None() { return New(kNone); }
inline Ref Bool(bool b) {
  Ref r = New(kBool);
  r->b = b;
  return r;
}
inline Ref Int(__int128 i) {
  Ref r = New(kInt);
  r->i = i;
  return r;
}
inline Ref Float(double f) {
  Ref r = New(kFloat);
  r->f = f;
  return r;
}
inline Ref Str(const std::string& s) {
  Ref r = New(kStr);
  r->s = s;
  return r;
}
template <typename C>
Ref Strs(Kind k, const C& c) {
  Ref r = New(k);
  for (const std::string& s : c) r->items.push_back(Str(s));
  return r;
}

inline void KeepAlive(const Ref& nurse, const Ref& patient) {
  if (!nurse || !patient || nurse->kind == kNone || patient->kind == kNone) return;
  // Only instances of wrapped classes can hold others; for anything else a weak reference is needed.
  if (nurse->kind != kObject) throw PyError("TypeError", "cannot create weak reference to a built-in object");
  Py().keeps++;
  nurse->patients.push_back(patient);
}

// The live instance that wraps the value at this address, if any.
inline Ref FindInstance(const void* p, const Type* type) {
  sim::Outside outside;
  auto range = Py().instances.equal_range(p);
  for (auto it = range.first; it != range.second; ++it)
    if (it->second->type == type) {
      Ref r = it->second->weak_from_this().lock();
      if (!r) continue;
      Py().shared_instances++;
      return r;
    }
  return Ref();
}
inline void RegisterInstance(Value* v, void* p, std::shared_ptr<void> owned) {
  v->owned = std::move(owned);
  sim::Outside outside;
  Py().instances.emplace(p, v);
  v->ptr = p;
  Py().instances_made++;
}
inline Ref Wrap(Type* type, void* p, std::shared_ptr<void> owned) {
  Ref r = New(kObject);
  r->type = type;
  RegisterInstance(r.get(), p, std::move(owned));
  return r;
}
inline Type* FindType(std::type_index id) {
  sim::Outside outside;
  auto it = Py().types.find(id);
  return it == Py().types.end() ? nullptr : it->second;
}

}  // namespace simpy

// ------------------------------------------------------------------------------------- pybind11
#define PYBIND11_VERSION_MAJOR 2
#define PYBIND11_VERSION_MINOR 11

namespace pybind11 {

enum class return_value_policy : uint8_t { automatic = 0, automatic_reference, take_ownership, copy, move, reference, reference_internal };

#define SIM_PY_EXCEPTION(cc, py)                        \
  struct cc : std::runtime_error {                      \
    explicit cc(const std::string& m = "") : std::runtime_error(m) {} \
  };
SIM_PY_EXCEPTION(stop_iteration, StopIteration)
SIM_PY_EXCEPTION(index_error, IndexError)
SIM_PY_EXCEPTION(key_error, KeyError)
SIM_PY_EXCEPTION(value_error, ValueError)
SIM_PY_EXCEPTION(type_error, TypeError)
SIM_PY_EXCEPTION(attribute_error, AttributeError)
SIM_PY_EXCEPTION(cast_error, RuntimeError)
#undef SIM_PY_EXCEPTION

struct arg_v;
struct arg {
  explicit constexpr arg(const char* n) : name(n) {}
  template <typename T>
  arg_v operator=(T&& value) const;
  arg& noconvert(bool = true) { return *this; }
  const char* name;
};
struct arg_v : arg {
  arg_v(const arg& a, simpy::Ref v) : arg(a), value(std::move(v)) {}
  simpy::Ref value;
};
inline namespace literals {
constexpr arg operator"" _a(const char* name, size_t) { return arg(name); }
}  // namespace literals

template <size_t Nurse, size_t Patient>
struct keep_alive {};
template <typename... T>
struct call_guard {};
struct is_method {};
struct dynamic_attr {};
struct module_local {
  module_local(bool = true) {}
};
struct kw_only {};
struct pos_only {};
struct is_operator {};
struct is_final {};
struct prepend {};
struct buffer_protocol {};
struct options {
  options& disable_function_signatures() { return *this; }
  options& enable_function_signatures() { return *this; }
  options& disable_user_defined_docstrings() { return *this; }
  options& enable_user_defined_docstrings() { return *this; }
};
struct doc {
  explicit doc(const char*) {}
};
struct name {
  explicit name(const char*) {}
};
struct scope {
  template <typename H>
  explicit scope(const H&) {}
};
struct sibling {
  template <typename H>
  explicit sibling(const H&) {}
};

// Choosing one of several overloads.
struct const_tag {};
constexpr const_tag const_{};
template <typename... A>
struct overload_cast_impl {
  template <typename R>
  constexpr auto operator()(R (*f)(A...)) const { return f; }
  template <typename R, typename C>
  constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const { return f; }
  template <typename R, typename C>
  constexpr auto operator()(R (C::*f)(A...) const, const_tag) const { return f; }
};
template <typename... A>
constexpr overload_cast_impl<A...> overload_cast{};
class gil_scoped_release {};
class gil_scoped_acquire {};
class scoped_ostream_redirect {};
class scoped_estream_redirect {};

namespace detail {

template <typename T>
struct intrinsic {
  using type = T;
};
template <typename T>
struct intrinsic<T&> : intrinsic<T> {};
template <typename T>
struct intrinsic<T&&> : intrinsic<T> {};
template <typename T>
struct intrinsic<const T> : intrinsic<T> {};
template <typename T>
struct intrinsic<T*> : intrinsic<T> {};
template <typename T>
using intrinsic_t = typename intrinsic<T>::type;

// Values of wrapped classes.
template <typename T, typename = void>
struct caster {
  static constexpr bool generic = true;
  T* p = nullptr;
  bool load(const simpy::Ref& r, bool) {
    if (r->kind != simpy::kObject || r->type->id != std::type_index(typeid(T)) || r->ptr == nullptr) return false;
    p = static_cast<T*>(r->ptr);
    return true;
  }
  T& ref() { return *p; }

  static simpy::Ref Pointer(const T* src, return_value_policy policy, const simpy::Ref& parent) {
    if (src == nullptr) return simpy::None();
    simpy::Type* type = simpy::FindType(typeid(T));
    if (type == nullptr) throw simpy::PyError("TypeError", "Unable to convert function return value to a Python type!");
    if (simpy::Ref r = simpy::FindInstance(src, type)) return r;
    T* obj = const_cast<T*>(src);
    bool own = true;
    switch (policy) {
      case return_value_policy::automatic:
      case return_value_policy::take_ownership:
        break;
      case return_value_policy::automatic_reference:
      case return_value_policy::reference:
      case return_value_policy::reference_internal:
        own = false;
        break;
      case return_value_policy::copy:
        if constexpr (std::is_copy_constructible_v<T>) obj = new T(*src);
        else throw cast_error("return_value_policy = copy, but type is non-copyable!");
        break;
      case return_value_policy::move:
        if constexpr (std::is_move_constructible_v<T>) obj = new T(std::move(*const_cast<T*>(src)));
        else throw cast_error("return_value_policy = move, but type is neither movable nor copyable!");
        break;
    }
    simpy::Ref r = simpy::Wrap(type, obj, own ? type->share(obj) : nullptr);
    if (policy == return_value_policy::reference_internal && parent) simpy::KeepAlive(r, parent);
    return r;
  }
  static simpy::Ref cast(const T& src, return_value_policy policy, const simpy::Ref& parent) {
    if (policy == return_value_policy::automatic || policy == return_value_policy::automatic_reference) policy = return_value_policy::copy;
    return Pointer(&src, policy, parent);
  }
  static simpy::Ref cast(T&& src, return_value_policy, const simpy::Ref& parent) { return Pointer(&src, return_value_policy::move, parent); }
};

// Values that are converted.
template <typename T>
struct value_caster {
  static constexpr bool generic = false;
  T value{};
  T& ref() { return value; }
};

template <typename R>
return_value_policy Override(return_value_policy policy) {
  if constexpr (caster<intrinsic_t<R>>::generic && !std::is_lvalue_reference_v<R> && !std::is_pointer_v<std::remove_reference_t<R>>)
    return return_value_policy::move;
  else
    return policy;
}
template <typename R>
simpy::Ref Cast(R&& value, return_value_policy policy, const simpy::Ref& parent) {
  using D = std::decay_t<R>;
  if constexpr (std::is_same_v<D, const char*> || std::is_same_v<D, char*>) {
    return value == nullptr ? simpy::None() : simpy::Str(value);
  } else if constexpr (std::is_pointer_v<D>) {
    return caster<intrinsic_t<D>>::Pointer(value, policy, parent);
  } else {
    return caster<intrinsic_t<R>>::cast(std::forward<R>(value), policy, parent);
  }
}
template <typename Like, typename V>
decltype(auto) ForwardLike(V& v) {
  if constexpr (std::is_lvalue_reference_v<Like>) return static_cast<V&>(v);
  else return static_cast<V&&>(v);
}
// Of a container's elements.
template <typename T, typename E, typename V>
simpy::Ref CastElement(V& v, return_value_policy policy, const simpy::Ref& parent) {
  if (!std::is_lvalue_reference_v<T>) policy = Override<E>(policy);
  return Cast(ForwardLike<T>(v), policy, parent);
}

template <>
struct caster<bool> : value_caster<bool> {
  bool load(const simpy::Ref& r, bool convert) {
    if (r->kind == simpy::kBool) value = r->b;
    else if (convert && r->kind == simpy::kNone) value = false;
    else if (convert && r->kind == simpy::kInt) value = r->i != 0;
    else return false;
    return true;
  }
  static simpy::Ref cast(bool b, return_value_policy, const simpy::Ref&) { return simpy::Bool(b); }
};
template <typename T>
struct caster<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool> && !std::is_same_v<T, char>>> : value_caster<T> {
  bool load(const simpy::Ref& r, bool) {
    __int128 i;
    if (r->kind == simpy::kInt) i = r->i;
    else if (r->kind == simpy::kBool) i = r->b;
    else return false;
    if (i < static_cast<__int128>(std::numeric_limits<T>::min()) || i > static_cast<__int128>(std::numeric_limits<T>::max())) return false;
    this->value = static_cast<T>(i);
    return true;
  }
  static simpy::Ref cast(T i, return_value_policy, const simpy::Ref&) { return simpy::Int(i); }
};
template <typename T>
struct caster<T, std::enable_if_t<std::is_floating_point_v<T>>> : value_caster<T> {
  bool load(const simpy::Ref& r, bool convert) {
    if (r->kind == simpy::kFloat) this->value = static_cast<T>(r->f);
    else if (convert && r->kind == simpy::kInt) this->value = static_cast<T>(r->i);
    else return false;
    return true;
  }
  static simpy::Ref cast(T f, return_value_policy, const simpy::Ref&) { return simpy::Float(f); }
};
template <>
struct caster<std::string> : value_caster<std::string> {
  bool load(const simpy::Ref& r, bool) {
    if (r->kind != simpy::kStr) return false;
    value = r->s;
    return true;
  }
  static simpy::Ref cast(const std::string& s, return_value_policy, const simpy::Ref&) { return simpy::Str(s); }
};

template <typename L, typename E>
struct list_caster : value_caster<L> {
  bool load(const simpy::Ref& r, bool convert) {
    if (r->kind != simpy::kList && r->kind != simpy::kTuple) return false;
    this->value.clear();
    for (const simpy::Ref& item : r->items) {
      caster<E> c;
      if (!c.load(item, convert)) return false;
      this->value.push_back(c.ref());
    }
    return true;
  }
  template <typename T>
  static simpy::Ref cast(T&& src, return_value_policy policy, const simpy::Ref& parent) {
    simpy::Ref r = simpy::New(simpy::kList);
    for (auto&& e : src) r->items.push_back(CastElement<T, E>(e, policy, parent));
    return r;
  }
};
template <typename E, typename A>
struct caster<std::vector<E, A>> : list_caster<std::vector<E, A>, E> {};

template <typename S, typename E>
struct set_caster : value_caster<S> {
  bool load(const simpy::Ref& r, bool convert) {
    if (r->kind != simpy::kSet) return false;
    this->value.clear();
    for (const simpy::Ref& item : r->items) {
      caster<E> c;
      if (!c.load(item, convert)) return false;
      this->value.insert(c.ref());
    }
    return true;
  }
  template <typename T>
  static simpy::Ref cast(T&& src, return_value_policy policy, const simpy::Ref& parent) {
    simpy::Ref r = simpy::New(simpy::kSet);
    for (auto&& e : src) r->items.push_back(CastElement<T, E>(e, policy, parent));
    return r;
  }
};
template <typename E, typename C, typename A>
struct caster<std::set<E, C, A>> : set_caster<std::set<E, C, A>, E> {};
template <typename E, typename H, typename Q, typename A>
struct caster<std::unordered_set<E, H, Q, A>> : set_caster<std::unordered_set<E, H, Q, A>, E> {};

template <typename M, typename K, typename V>
struct map_caster : value_caster<M> {
  bool load(const simpy::Ref& r, bool convert) {
    if (r->kind != simpy::kDict) return false;
    this->value.clear();
    for (size_t i = 0; i + 1 < r->items.size(); i += 2) {
      caster<K> k;
      caster<V> v;
      if (!k.load(r->items[i], convert) || !v.load(r->items[i + 1], convert)) return false;
      this->value.emplace(k.ref(), v.ref());
    }
    return true;
  }
  template <typename T>
  static simpy::Ref cast(T&& src, return_value_policy policy, const simpy::Ref& parent) {
    simpy::Ref r = simpy::New(simpy::kDict);
    for (auto&& e : src) {
      r->items.push_back(CastElement<T, K>(e.first, policy, parent));
      r->items.push_back(CastElement<T, V>(e.second, policy, parent));
    }
    return r;
  }
};
template <typename K, typename V, typename C, typename A>
struct caster<std::map<K, V, C, A>> : map_caster<std::map<K, V, C, A>, K, V> {};
template <typename K, typename V, typename H, typename Q, typename A>
struct caster<std::unordered_map<K, V, H, Q, A>> : map_caster<std::unordered_map<K, V, H, Q, A>, K, V> {};

template <typename Tuple, typename... E>
struct tuple_caster {
  static constexpr bool generic = false;
  std::tuple<caster<intrinsic_t<E>>...> parts;
  std::optional<Tuple> value;
  template <size_t... I>
  bool Load(const simpy::Ref& r, bool convert, std::index_sequence<I...>) {
    if (!(std::get<I>(parts).load(r->items[I], convert) && ...)) return false;
    value.emplace(std::get<I>(parts).ref()...);
    return true;
  }
  bool load(const simpy::Ref& r, bool convert) {
    if ((r->kind != simpy::kTuple && r->kind != simpy::kList) || r->items.size() != sizeof...(E)) return false;
    return Load(r, convert, std::index_sequence_for<E...>());
  }
  Tuple& ref() { return *value; }
  template <typename T, size_t... I>
  static simpy::Ref Make(T&& src, return_value_policy policy, const simpy::Ref& parent, std::index_sequence<I...>) {
    simpy::Ref r = simpy::New(simpy::kTuple);
    (r->items.push_back(Cast(std::get<I>(std::forward<T>(src)), policy, parent)), ...);
    return r;
  }
  template <typename T>
  static simpy::Ref cast(T&& src, return_value_policy policy, const simpy::Ref& parent) {
    return Make(std::forward<T>(src), policy, parent, std::index_sequence_for<E...>());
  }
};
template <typename A, typename B>
struct caster<std::pair<A, B>> : tuple_caster<std::pair<A, B>, A, B> {};
template <typename... E>
struct caster<std::tuple<E...>> : tuple_caster<std::tuple<E...>, E...> {};

template <typename E>
struct caster<std::optional<E>> : value_caster<std::optional<E>> {
  bool load(const simpy::Ref& r, bool convert) {
    if (r->kind == simpy::kNone) return true;
    caster<E> c;
    if (!c.load(r, convert)) return false;
    this->value.emplace(c.ref());
    return true;
  }
  template <typename T>
  static simpy::Ref cast(T&& src, return_value_policy policy, const simpy::Ref& parent) {
    if (!src) return simpy::None();
    if (!std::is_lvalue_reference_v<T>) policy = Override<E>(policy);
    return Cast(*std::forward<T>(src), policy, parent);
  }
};

template <typename T>
struct caster<std::shared_ptr<T>> : value_caster<std::shared_ptr<T>> {
  using U = std::remove_const_t<T>;
  bool load(const simpy::Ref& r, bool) {
    if (r->kind == simpy::kNone) return true;
    if (r->kind != simpy::kObject || r->type->id != std::type_index(typeid(U)) || r->type->holder != std::type_index(typeid(std::shared_ptr<U>)) ||
        !r->owned)
      return false;
    this->value = std::static_pointer_cast<U>(r->owned);
    return true;
  }
  static simpy::Ref cast(const std::shared_ptr<T>& src, return_value_policy, const simpy::Ref&) {
    if (!src) return simpy::None();
    simpy::Type* type = simpy::FindType(typeid(U));
    if (type == nullptr) throw simpy::PyError("TypeError", "Unable to convert function return value to a Python type!");
    // pybind11 takes the shared pointer for a holder of the registered type: undefined behaviour.
    if (type->holder != std::type_index(typeid(std::shared_ptr<U>)))
      throw simpy::PyError("SystemError", type->name + " is not held by shared pointers, but one is returned");
    if (simpy::Ref r = simpy::FindInstance(src.get(), type)) return r;
    U* p = const_cast<U*>(src.get());
    return simpy::Wrap(type, p, std::const_pointer_cast<U>(src));
  }
};
template <typename T, typename D>
struct caster<std::unique_ptr<T, D>> {
  static constexpr bool generic = false;
  static simpy::Ref cast(std::unique_ptr<T, D>&& src, return_value_policy, const simpy::Ref&) {
    return caster<T>::Pointer(src.release(), return_value_policy::take_ownership, nullptr);
  }
};

}  // namespace detail

// -------------------------------------------------------------------------- Python values in C++
class handle {
 public:
  handle() = default;
  handle(simpy::Ref r) : ref_(std::move(r)) {}
  template <typename T>
  T cast() const;
  bool is_none() const { return !ref_ || ref_->kind == simpy::kNone; }
  explicit operator bool() const { return ref_ != nullptr; }
  bool is(const handle& o) const { return ref_ == o.ref_; }
  const simpy::Ref& ref() const { return ref_; }

 protected:
  simpy::Ref ref_;
};
class object : public handle {
 public:
  using handle::handle;
  object() = default;
  object(const handle& h) : handle(h) {}
};
class none : public object {
 public:
  none() : object(simpy::None()) {}
};
class str : public object {
 public:
  str(const std::string& s = "") : object(simpy::Str(s)) {}
  str(const char* s) : object(simpy::Str(s)) {}
  explicit str(const object& o) : object(o) {}
  operator std::string() const { return ref_->s; }
};
class sequence : public object {
 public:
  using object::object;
  size_t size() const { return ref_->items.size(); }
  bool empty() const { return ref_->items.empty(); }
  object operator[](size_t i) const {
    if (i >= ref_->items.size()) throw simpy::PyError("IndexError", "index out of range");
    return object(ref_->items[i]);
  }
  class item_iterator {
   public:
    item_iterator(const std::vector<simpy::Ref>* v, size_t i) : v_(v), i_(i) {}
    object operator*() const { return object((*v_)[i_]); }
    item_iterator& operator++() {
      i_++;
      return *this;
    }
    bool operator!=(const item_iterator& o) const { return i_ != o.i_; }
    bool operator==(const item_iterator& o) const { return i_ == o.i_; }

   private:
    const std::vector<simpy::Ref>* v_;
    size_t i_;
  };
  item_iterator begin() const { return {&ref_->items, 0}; }
  item_iterator end() const { return {&ref_->items, ref_->items.size()}; }
};
class tuple : public sequence {
 public:
  tuple() : sequence(simpy::New(simpy::kTuple)) {}
  explicit tuple(simpy::Ref r) : sequence(std::move(r)) {}
  explicit tuple(const object& o) : sequence(o.ref()) {}
};
template <typename T>
object cast(T&& value, return_value_policy policy = return_value_policy::automatic_reference, handle parent = handle());
class list : public sequence {
 public:
  list() : sequence(simpy::New(simpy::kList)) {}
  explicit list(size_t n) : sequence(simpy::New(simpy::kList)) { ref_->items.resize(n); }
  explicit list(simpy::Ref r) : sequence(std::move(r)) {}
  explicit list(const object& o) : sequence(o.ref()) {}
  template <typename T>
  void append(T&& v) const;
};
class set : public object {
 public:
  set() : object(simpy::New(simpy::kSet)) {}
  explicit set(simpy::Ref r) : object(std::move(r)) {}
  explicit set(const object& o) : object(o) {}
  template <typename T>
  bool add(T&& v) const;
  size_t size() const { return ref_->items.size(); }
};
class iterable : public object {
 public:
  using object::object;
};
class int_ : public object {
 public:
  int_(long long i = 0) : object(simpy::Int(i)) {}
  explicit int_(const object& o) : object(o) {}
  operator long long() const { return static_cast<long long>(ref_->i); }
};
class float_ : public object {
 public:
  float_(double f = 0) : object(simpy::Float(f)) {}
  explicit float_(const object& o) : object(o) {}
  operator double() const { return ref_->f; }
};
class bool_ : public object {
 public:
  bool_(bool b = false) : object(simpy::Bool(b)) {}
  explicit bool_(const object& o) : object(o) {}
  operator bool() const { return ref_->b; }
};
class iterator : public object {
 public:
  using object::object;
  iterator(const object& o) : object(o) {}
};

namespace detail {
template <typename T>
struct object_caster {
  static constexpr bool generic = false;
  std::optional<T> value;
  T& ref() { return *value; }
  static simpy::Ref cast(const handle& h, return_value_policy, const simpy::Ref&) { return h.ref() ? h.ref() : simpy::None(); }
};
#define SIM_PY_OBJECT(T, test)                    \
  template <>                                     \
  struct caster<T> : object_caster<T> {           \
    bool load(const simpy::Ref& r, bool) {        \
      if (!(test)) return false;                  \
      value.emplace(T(object(r)));                \
      return true;                                \
    }                                             \
  };
SIM_PY_OBJECT(handle, true)
SIM_PY_OBJECT(object, true)
SIM_PY_OBJECT(tuple, r->kind == simpy::kTuple)
SIM_PY_OBJECT(list, r->kind == simpy::kList)
SIM_PY_OBJECT(str, r->kind == simpy::kStr)
SIM_PY_OBJECT(int_, r->kind == simpy::kInt)
SIM_PY_OBJECT(float_, r->kind == simpy::kFloat)
SIM_PY_OBJECT(bool_, r->kind == simpy::kBool)
SIM_PY_OBJECT(set, r->kind == simpy::kSet)
SIM_PY_OBJECT(sequence, r->kind == simpy::kTuple || r->kind == simpy::kList)
SIM_PY_OBJECT(iterable, r->kind == simpy::kTuple || r->kind == simpy::kList || r->kind == simpy::kSet || r->kind == simpy::kObject)
SIM_PY_OBJECT(iterator, r->kind == simpy::kObject)
#undef SIM_PY_OBJECT
template <>
struct caster<none> : object_caster<none> {};

inline void keep_alive_impl(handle nurse, handle patient) { simpy::KeepAlive(nurse.ref(), patient.ref()); }

template <typename T>
T LoadAs(const simpy::Ref& r) {
  using I = intrinsic_t<T>;
  caster<I> c;
  if (!c.load(r, true)) throw cast_error("Unable to cast Python instance to C++ type");
  if constexpr (std::is_pointer_v<T>) return &c.ref();
  else if constexpr (std::is_reference_v<T>) return static_cast<T>(c.ref());
  else return T(c.ref());
}
}  // namespace detail

template <typename T>
T handle::cast() const {
  return detail::LoadAs<T>(ref_);
}
template <typename T>
T cast(const handle& h) {
  return detail::LoadAs<T>(h.ref());
}
template <typename T>
object cast(T&& value, return_value_policy policy, handle parent) {
  using D = std::remove_reference_t<T>;
  if (policy == return_value_policy::automatic)
    policy = std::is_pointer_v<D> ? return_value_policy::take_ownership
                                  : std::is_lvalue_reference_v<T> ? return_value_policy::copy : return_value_policy::move;
  else if (policy == return_value_policy::automatic_reference)
    policy = std::is_pointer_v<D> ? return_value_policy::reference
                                  : std::is_lvalue_reference_v<T> ? return_value_policy::copy : return_value_policy::move;
  return object(detail::Cast(std::forward<T>(value), policy, parent.ref()));
}
template <typename T>
bool isinstance(const handle& h) {
  detail::caster<detail::intrinsic_t<T>> c;
  return h.ref() && c.load(h.ref(), false);
}
template <typename T>
T reinterpret_borrow(const handle& h) {
  return T(object(h));
}
inline size_t len(const handle& h) { return h.ref()->items.size(); }
template <typename T>
void list::append(T&& v) const {
  ref_->items.push_back(pybind11::cast(std::forward<T>(v)).ref());
}
template <typename T>
bool set::add(T&& v) const {
  ref_->items.push_back(pybind11::cast(std::forward<T>(v)).ref());
  return true;
}
template <return_value_policy Policy = return_value_policy::automatic_reference, typename... A>
tuple make_tuple(A&&... a) {
  simpy::Ref r = simpy::New(simpy::kTuple);
  (r->items.push_back(pybind11::cast(std::forward<A>(a), Policy).ref()), ...);
  return tuple(r);
}
template <typename T>
arg_v arg::operator=(T&& value) const {
  return arg_v(*this, pybind11::cast(std::forward<T>(value)).ref());
}

// -------------------------------------------------------------------------------------- functions
namespace detail {

template <typename A, typename C>
decltype(auto) Pass(C& c) {
  if constexpr (std::is_pointer_v<A>) return &c.ref();
  else if constexpr (std::is_lvalue_reference_v<A>) return static_cast<A>(c.ref());
  else if constexpr (C::generic) return std::decay_t<A>(c.ref());
  else return static_cast<std::decay_t<A>&&>(c.ref());
}

inline void Extra(simpy::Overload&, return_value_policy&, const char*) {}
inline void Extra(simpy::Overload& o, return_value_policy&, const arg& a) { o.records.push_back({a.name, nullptr}); }
inline void Extra(simpy::Overload& o, return_value_policy&, const arg_v& a) { o.records.push_back({a.name, a.value}); }
inline void Extra(simpy::Overload&, return_value_policy& p, return_value_policy q) { p = q; }
template <size_t N, size_t P>
void Extra(simpy::Overload& o, return_value_policy&, keep_alive<N, P>) {
  o.keep.emplace_back(N, P);
}
template <typename T>
void Extra(simpy::Overload&, return_value_policy&, const T&) {}

inline void Keeps(const std::vector<std::pair<size_t, size_t>>& keep, const std::vector<simpy::Ref>& args, const simpy::Ref& result, bool after) {
  auto get = [&](size_t i) { return i == 0 ? result : i <= args.size() ? args[i - 1] : simpy::Ref(); };
  for (auto& k : keep)
    if ((k.first == 0 || k.second == 0) == after) {
      if (!get(k.first) || !get(k.second)) throw std::runtime_error("Could not activate keep_alive!");
      simpy::KeepAlive(get(k.first), get(k.second));
    }
}

template <typename R, typename F, typename... A, size_t... I>
simpy::Overload Make(const std::string& name, F f, return_value_policy policy, const std::vector<std::pair<size_t, size_t>>& keep,
                     std::index_sequence<I...>) {
  simpy::Overload o;
  o.name = name;
  o.nargs = sizeof...(A);
  auto fn = std::make_shared<std::decay_t<F>>(std::move(f));
  o.impl = [fn, policy, keep](std::vector<simpy::Ref>& args, bool convert) -> std::optional<simpy::Ref> {
    std::tuple<caster<intrinsic_t<A>>...> c;
    if (!(std::get<I>(c).load(args[I], convert) && ...)) return std::nullopt;
    Keeps(keep, args, nullptr, false);
    simpy::Ref result;
    if constexpr (std::is_void_v<R>) {
      (*fn)(Pass<A>(std::get<I>(c))...);
      result = simpy::None();
    } else {
      result = Cast<R>((*fn)(Pass<A>(std::get<I>(c))...), Override<R>(policy), args.empty() ? simpy::Ref() : args[0]);
    }
    Keeps(keep, args, result, true);
    return result;
  };
  return o;
}

template <typename F, typename... Extras>
struct Definer {
  std::string name;
  F f;
  return_value_policy policy;
  simpy::Overload proto;
  template <typename R, typename... A>
  simpy::Overload As() {
    simpy::Overload o = Make<R, F, A...>(name, std::move(f), policy, proto.keep, std::index_sequence_for<A...>());
    o.records = std::move(proto.records);
    return o;
  }
};

template <typename S>
struct Signature;
#define SIM_PY_SIG(cv)                                                          \
  template <typename C, typename R, typename... A>                              \
  struct Signature<R (C::*)(A...) cv> {                                         \
    template <typename D>                                                       \
    static simpy::Overload Apply(D& d) { return d.template As<R, A...>(); }     \
  };
SIM_PY_SIG()
SIM_PY_SIG(const)
SIM_PY_SIG(noexcept)
SIM_PY_SIG(const noexcept)
#undef SIM_PY_SIG
template <typename R, typename... A>
struct Signature<R (*)(A...)> {
  template <typename D>
  static simpy::Overload Apply(D& d) { return d.template As<R, A...>(); }
};
template <typename R, typename... A>
struct Signature<R (*)(A...) noexcept> : Signature<R (*)(A...)> {};

// Functions and function objects.
template <typename F, typename... X>
simpy::Overload Define(const std::string& name, return_value_policy policy, F f, const X&... extra) {
  simpy::Overload proto;
  (Extra(proto, policy, extra), ...);
  Definer<F> d{name, std::move(f), policy, std::move(proto)};
  if constexpr (std::is_pointer_v<F>) return Signature<F>::Apply(d);
  else return Signature<decltype(&F::operator())>::Apply(d);
}

// Members become functions of the class they are bound to.
template <typename T, typename F>
auto Adapt(F&& f) {
  return std::forward<F>(f);
}
#define SIM_PY_ADAPT(cv, self)                                                               \
  template <typename T, typename R, typename C, typename... A>                               \
  auto Adapt(R (C::*f)(A...) cv) {                                                           \
    return [f](self t, A... a) -> R { return (t.*f)(std::forward<A>(a)...); };               \
  }
SIM_PY_ADAPT(, T&)
SIM_PY_ADAPT(const, const T&)
SIM_PY_ADAPT(noexcept, T&)
SIM_PY_ADAPT(const noexcept, const T&)
#undef SIM_PY_ADAPT

template <typename... A>
struct init_tag {};
template <typename F>
struct factory_tag {
  F f;
};
template <typename G, typename S>
struct pickle_tag {
  G get;
  S set;
};

// Constructors: the first argument is the instance being made.
template <typename T, typename F, typename R, typename... A>
simpy::Overload Constructor(F f, simpy::Overload proto) {
  simpy::Overload o;
  o.nargs = sizeof...(A) + 1;
  o.method = true;
  o.records = std::move(proto.records);
  auto fn = std::make_shared<F>(std::move(f));
  const auto keep = proto.keep;
  o.impl = [fn, keep](std::vector<simpy::Ref>& args, bool convert) -> std::optional<simpy::Ref> {
    std::tuple<caster<intrinsic_t<A>>...> c;
    const bool loaded = [&]<size_t... I>(std::index_sequence<I...>) {
      return (std::get<I>(c).load(args[I + 1], convert) && ...);
    }(std::index_sequence_for<A...>());
    if (!loaded) return std::nullopt;
    Keeps(keep, args, nullptr, false);
    T* p = [&]<size_t... I>(std::index_sequence<I...>) -> T* {
      if constexpr (std::is_pointer_v<R>) return (*fn)(Pass<A>(std::get<I>(c))...);
      else if constexpr (std::is_same_v<R, std::unique_ptr<T>>) return (*fn)(Pass<A>(std::get<I>(c))...).release();
      else return new T((*fn)(Pass<A>(std::get<I>(c))...));
    }(std::index_sequence_for<A...>());
    if (p == nullptr) throw type_error("pybind11::init(): factory function returned nullptr");
    std::shared_ptr<void> owned = args[0]->type->share(p);
    simpy::RegisterInstance(args[0].get(), p, std::move(owned));
    Keeps(keep, args, args[0], true);
    return simpy::None();
  };
  return o;
}
template <typename T, typename S>
struct FactorySignature;
#define SIM_PY_SIG(cv)                                                                                      \
  template <typename T, typename C, typename R, typename... A>                                              \
  struct FactorySignature<T, R (C::*)(A...) cv> {                                                           \
    template <typename F>                                                                                   \
    static simpy::Overload Apply(F f, simpy::Overload p) { return Constructor<T, F, R, A...>(std::move(f), std::move(p)); } \
  };
SIM_PY_SIG()
SIM_PY_SIG(const)
#undef SIM_PY_SIG
template <typename T, typename R, typename... A>
struct FactorySignature<T, R (*)(A...)> {
  template <typename F>
  static simpy::Overload Apply(F f, simpy::Overload p) { return Constructor<T, F, R, A...>(std::move(f), std::move(p)); }
};
template <typename T, typename F>
simpy::Overload Factory(F f, simpy::Overload proto) {
  if constexpr (std::is_pointer_v<F>) return FactorySignature<T, F>::Apply(std::move(f), std::move(proto));
  else return FactorySignature<T, decltype(&F::operator())>::Apply(std::move(f), std::move(proto));
}

}  // namespace detail

template <typename... A>
detail::init_tag<A...> init() {
  return {};
}
template <typename F>
detail::factory_tag<std::decay_t<F>> init(F&& f) {
  return {std::forward<F>(f)};
}
template <typename G, typename S>
detail::pickle_tag<std::decay_t<G>, std::decay_t<S>> pickle(G&& g, S&& s) {
  return {std::forward<G>(g), std::forward<S>(s)};
}

class module_ : public object {
 public:
  std::string doc_;
  std::string& doc() { return doc_; }
  template <typename F, typename... X>
  module_& def(const char* name, F f, const X&... extra) {
    simpy::Py().functions[name].push_back(detail::Define(name, return_value_policy::automatic, std::move(f), extra...));
    return *this;
  }
};
using module = module_;
inline void add_ostream_redirect(module_&, const std::string& = "ostream_redirect") {}

template <typename T, typename... Options>
class class_ : public object {
  template <typename O>
  static void Option(simpy::Type* t) {
    if constexpr (std::is_same_v<O, std::shared_ptr<T>>) t->holder = typeid(std::shared_ptr<T>);
  }

 public:
  template <typename... X>
  class_(const handle&, const char* name, const X&...) {
    simpy::Py().storage.push_back(std::make_unique<simpy::Type>());
    type_ = simpy::Py().storage.back().get();
    type_->name = name;
    type_->id = typeid(T);
    type_->holder = typeid(std::unique_ptr<T>);
    type_->share = [](void* p) -> std::shared_ptr<void> { return std::shared_ptr<T>(static_cast<T*>(p)); };
    (Option<Options>(type_), ...);
    if (!simpy::Py().types.emplace(std::type_index(typeid(T)), type_).second)
      throw std::runtime_error(std::string("generic_type: type \"") + name + "\" is already registered!");
    simpy::Py().by_name[name] = type_;
  }
  template <typename F, typename... X>
  class_& def(const char* name, F&& f, const X&... extra) {
    return Method(name, detail::Define(name, return_value_policy::automatic, detail::Adapt<T>(std::forward<F>(f)), extra...));
  }
  template <typename... A, typename... X>
  class_& def(const detail::init_tag<A...>&, const X&... extra) {
    auto make = [](A... a) -> T* { return new T(std::forward<A>(a)...); };
    return Method("__init__", detail::Constructor<T, decltype(make), T*, A...>(make, Proto(extra...)));
  }
  template <typename F, typename... X>
  class_& def(detail::factory_tag<F> f, const X&... extra) {
    return Method("__init__", detail::Factory<T>(std::move(f.f), Proto(extra...)));
  }
  template <typename G, typename S, typename... X>
  class_& def(detail::pickle_tag<G, S> p, const X&... extra) {
    Method("__getstate__", detail::Define("__getstate__", return_value_policy::automatic, std::move(p.get)));
    return Method("__setstate__", detail::Factory<T>(std::move(p.set), Proto(extra...)));
  }
  template <typename F, typename... X>
  class_& def_static(const char* name, F f, const X&... extra) {
    simpy::Overload o = detail::Define(name, return_value_policy::automatic, std::move(f), extra...);
    o.is_static = true;
    type_->methods[name].push_back(std::move(o));
    return *this;
  }
  template <typename G, typename... X>
  class_& def_property_readonly(const char* name, G&& g, const X&... extra) {
    simpy::Overload o = detail::Define(name, return_value_policy::reference_internal, detail::Adapt<T>(std::forward<G>(g)), extra...);
    o.method = true;
    type_->properties[name] = {std::move(o), std::nullopt};
    return *this;
  }
  template <typename G, typename S, typename... X>
  class_& def_property(const char* name, G&& g, S&& s, const X&... extra) {
    def_property_readonly(name, std::forward<G>(g), extra...);
    simpy::Overload o = detail::Define(name, return_value_policy::automatic, detail::Adapt<T>(std::forward<S>(s)), extra...);
    o.method = true;
    type_->properties[name].second = std::move(o);
    return *this;
  }
  template <typename C, typename D, typename... X>
  class_& def_readonly(const char* name, const D C::*m, const X&... extra) {
    return def_property_readonly(name, [m](const T& t) -> const D& { return t.*m; }, extra...);
  }
  template <typename C, typename D, typename... X>
  class_& def_readwrite(const char* name, D C::*m, const X&... extra) {
    return def_property(
        name, [m](const T& t) -> const D& { return t.*m; }, [m](T& t, const D& v) { t.*m = v; }, extra...);
  }

 private:
  template <typename... X>
  static simpy::Overload Proto(const X&... extra) {
    simpy::Overload proto;
    return_value_policy policy{};
    (detail::Extra(proto, policy, extra), ...);
    return proto;
  }
  class_& Method(const char* name, simpy::Overload o) {
    o.method = true;
    o.name = name;
    type_->methods[name].push_back(std::move(o));
    return *this;
  }
  simpy::Type* type_;
};

namespace detail {
template <typename It, typename End, typename V, return_value_policy Policy>
struct iterator_state {
  It it;
  End end;
  bool first_or_done;
};
}  // namespace detail

template <return_value_policy Policy = return_value_policy::reference_internal, typename It, typename End,
          typename V = decltype(*std::declval<It&>()), typename... X>
iterator make_iterator(It first, End last, const X&... extra) {
  using S = detail::iterator_state<It, End, V, Policy>;
  if (simpy::FindType(typeid(S)) == nullptr) {
    sim::Outside outside;
    class_<S>(handle(), "iterator")
        .def("__iter__", [](S& s) -> S& { return s; })
        .def(
            "__next__",
            [](S& s) -> V {
              if (!s.first_or_done) ++s.it;
              else s.first_or_done = false;
              if (s.it == s.end) {
                s.first_or_done = true;
                throw stop_iteration();
              }
              return *s.it;
            },
            extra..., Policy);
  }
  return iterator(cast(S{std::move(first), std::move(last), true}));
}
template <return_value_policy Policy = return_value_policy::reference_internal, typename C, typename... X>
iterator make_iterator(C& c, const X&... extra) {
  return make_iterator<Policy>(std::begin(c), std::end(c), extra...);
}

}  // namespace pybind11

#define PYBIND11_MODULE(name, variable, ...)                                                   \
  static void sim_py_init_##name(::pybind11::module_& variable);                           \
  extern "C" void sim_py_load_module(::pybind11::module_& m) { sim_py_init_##name(m); }      \
  static void sim_py_init_##name(::pybind11::module_& variable)

// -------------------------------------------------------------------------------------- calls
namespace simpy {

inline Ref InvokeRaw(const std::vector<Overload>& overloads, const std::string& what, const Ref& self, const std::vector<Ref>& args,
                     const std::map<std::string, Ref>& kwargs) {
  for (int pass = overloads.size() > 1 ? 0 : 1; pass < 2; pass++) {
    for (const Overload& o : overloads) {
      std::vector<Ref> full;
      if (self && o.method) full.push_back(self);
      full.insert(full.end(), args.begin(), args.end());
      if (full.size() > o.nargs) continue;
      size_t used = 0;
      const size_t shift = o.method ? 1 : 0;
      while (full.size() < o.nargs) {
        const size_t r = full.size() - shift;
        if (r >= o.records.size()) break;
        auto it = kwargs.find(o.records[r].name);
        if (it != kwargs.end()) {
          full.push_back(it->second);
          used++;
        } else if (o.records[r].value) {
          full.push_back(o.records[r].value);
        } else {
          break;
        }
      }
      if (full.size() < o.nargs || used < kwargs.size()) continue;
      if (auto r = o.impl(full, pass == 1)) return *r;
    }
  }
  throw PyError("TypeError", what + "(): incompatible function arguments");
}

inline Ref Invoke(const std::vector<Overload>& overloads, const std::string& what, const Ref& self, const std::vector<Ref>& args,
                  const std::map<std::string, Ref>& kwargs) {
  Py().calls++;
  try {
    return InvokeRaw(overloads, what, self, args, kwargs);
  } catch (const PyError&) {
    throw;
  } catch (const pybind11::stop_iteration& e) {
    throw PyError("StopIteration", e.what());
  } catch (const pybind11::index_error& e) {
    throw PyError("IndexError", e.what());
  } catch (const pybind11::key_error& e) {
    throw PyError("KeyError", e.what());
  } catch (const pybind11::value_error& e) {
    throw PyError("ValueError", e.what());
  } catch (const pybind11::type_error& e) {
    throw PyError("TypeError", e.what());
  } catch (const std::bad_alloc& e) {
    throw PyError("MemoryError", e.what());
  } catch (const std::domain_error& e) {
    throw PyError("ValueError", e.what());
  } catch (const std::invalid_argument& e) {
    throw PyError("ValueError", e.what());
  } catch (const std::length_error& e) {
    throw PyError("ValueError", e.what());
  } catch (const std::out_of_range& e) {
    throw PyError("IndexError", e.what());
  } catch (const std::range_error& e) {
    throw PyError("ValueError", e.what());
  } catch (const std::overflow_error& e) {
    throw PyError("OverflowError", e.what());
  } catch (const std::exception& e) {
    throw PyError("RuntimeError", e.what());
  } catch (...) {
    throw PyError("RuntimeError", "Caught an unknown exception!");
  }
}

using Args = std::vector<Ref>;
using Kwargs = std::map<std::string, Ref>;

inline const std::vector<Overload>& Method(Type* type, const std::string& name) {
  auto it = type->methods.find(name);
  if (it == type->methods.end()) throw PyError("AttributeError", "'" + type->name + "' object has no attribute '" + name + "'");
  return it->second;
}
inline Type* TypeNamed(const std::string& name) {
  auto it = Py().by_name.find(name);
  if (it == Py().by_name.end()) throw PyError("AttributeError", "module has no attribute '" + name + "'");
  return it->second;
}
// type(args): a new instance.
inline Ref Construct(const std::string& type, const Args& args, const Kwargs& kwargs = {}, const char* how = "__init__") {
  Ref self = New(kObject);
  self->type = TypeNamed(type);
  auto it = self->type->methods.find(how);
  if (it == self->type->methods.end()) throw PyError("TypeError", type + ": No constructor defined!");
  Invoke(it->second, type, self, args, kwargs);
  return self;
}
inline Ref CallMethod(const Ref& self, const std::string& name, const Args& args = {}, const Kwargs& kwargs = {}) {
  if (self->kind != kObject) throw PyError("AttributeError", "object has no attribute '" + name + "'");
  return Invoke(Method(self->type, name), self->type->name + "." + name, self, args, kwargs);
}
inline Ref CallStatic(const std::string& type, const std::string& name, const Args& args, const Kwargs& kwargs = {}) {
  return Invoke(Method(TypeNamed(type), name), type + "." + name, nullptr, args, kwargs);
}
inline Ref GetAttr(const Ref& self, const std::string& name) {
  auto it = self->type->properties.find(name);
  if (it == self->type->properties.end()) throw PyError("AttributeError", "'" + self->type->name + "' object has no attribute '" + name + "'");
  return Invoke({it->second.first}, name, self, {}, {});
}
inline void SetAttr(const Ref& self, const std::string& name, const Ref& value) {
  auto it = self->type->properties.find(name);
  if (it == self->type->properties.end() || !it->second.second) throw PyError("AttributeError", "can't set attribute");
  Invoke({*it->second.second}, name, self, {value}, {});
}

}  // namespace simpy
#endif  // SIM_PYSTUB_PYBIND11_H_
