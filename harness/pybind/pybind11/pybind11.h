// A stand-in for the part of pybind11 that the Python module uses (pybind11 is
// not installed here): the same names and the same documented conversions,
// overload resolution and exception translation, over the CPython API.
#ifndef VERIF_PYBIND11_H_
#define VERIF_PYBIND11_H_

#include <Python.h>

#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace pybind11 {

enum class return_value_policy { automatic, take_ownership, copy, move, reference, reference_internal };

struct error_already_set : std::exception {};
struct cast_error : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct stop_iteration : std::runtime_error {
  explicit stop_iteration(const char* s = "") : std::runtime_error(s) {}
};
struct index_error : std::runtime_error {
  explicit index_error(const char* s = "") : std::runtime_error(s) {}
};
struct key_error : std::runtime_error {
  explicit key_error(const char* s = "") : std::runtime_error(s) {}
};
struct value_error : std::runtime_error {
  explicit value_error(const char* s = "") : std::runtime_error(s) {}
};
struct type_error : std::runtime_error {
  explicit type_error(const char* s = "") : std::runtime_error(s) {}
};

// ------------------------------------------------------------------ instances
struct Instance {
  PyObject_HEAD
  void* ptr;
  void (*del)(void*);
  PyObject* keep;
};

inline std::map<std::type_index, PyTypeObject*>& types() {
  static std::map<std::type_index, PyTypeObject*> m;
  return m;
}

inline void dealloc(PyObject* o) {
  auto* self = reinterpret_cast<Instance*>(o);
  if (self->ptr && self->del) self->del(self->ptr);
  Py_XDECREF(self->keep);
  PyTypeObject* t = Py_TYPE(o);
  t->tp_free(o);
  Py_DECREF(t);
}

inline void keep(PyObject* o, PyObject* parent) {
  auto* self = reinterpret_cast<Instance*>(o);
  if (!self->keep) self->keep = PyList_New(0);
  PyList_Append(self->keep, parent);
}

template <class T>
void destroy(void* p) {
  delete static_cast<T*>(p);
}

inline PyObject* instance(const std::type_info& ti, void* p, void (*del)(void*), PyObject* parent) {
  auto it = types().find(ti);
  if (it == types().end()) throw type_error("Unable to convert function return value to a Python type!");
  PyObject* o = it->second->tp_alloc(it->second, 0);
  auto* self = reinterpret_cast<Instance*>(o);
  self->ptr = p;
  self->del = del;
  if (parent) keep(o, parent);
  return o;
}

// -------------------------------------------------------------------- objects
class object {
 public:
  object() = default;
  object(const object& o) : p_(o.p_) { Py_XINCREF(p_); }
  object(object&& o) noexcept : p_(o.p_) { o.p_ = nullptr; }
  object& operator=(object o) {
    std::swap(p_, o.p_);
    return *this;
  }
  ~object() { Py_XDECREF(p_); }
  static object steal(PyObject* p) {
    object o;
    o.p_ = p;
    return o;
  }
  static object borrow(PyObject* p) {
    Py_XINCREF(p);
    return steal(p);
  }
  PyObject* ptr() const { return p_; }
  template <class T>
  T cast() const;

 private:
  PyObject* p_ = nullptr;
};
using handle = object;

class tuple : public object {
 public:
  tuple() = default;
  explicit tuple(object o) : object(std::move(o)) {}
  object operator[](size_t i) const {
    PyObject* x = i < size() ? PyTuple_GET_ITEM(ptr(), i) : nullptr;
    if (!x) {
      PyErr_SetString(PyExc_IndexError, "tuple index out of range");
      throw error_already_set();
    }
    return borrow(x);
  }
  size_t size() const { return PyTuple_Size(ptr()); }
};
class iterator : public object {
 public:
  iterator() = default;
  explicit iterator(object o) : object(std::move(o)) {}
};
class list : public object {
 public:
  list() : object(steal(PyList_New(0))) {}
  explicit list(object o) : object(std::move(o)) {}
  size_t size() const { return PyList_Size(ptr()); }
  object operator[](size_t i) const { return borrow(PyList_GET_ITEM(ptr(), i)); }
  template <class T>
  void append(T&& x);
};
class str : public object {
 public:
  str() : str("") {}
  str(const char* s) : object(steal(PyUnicode_FromString(s))) {}  // NOLINT
  str(const std::string& s) : str(s.c_str()) {}                    // NOLINT
};
struct none : object {
  none() : object(borrow(Py_None)) {}
};

// -------------------------------------------------------------------- casters
template <class T>
using bare = std::remove_cv_t<std::remove_reference_t<T>>;

// Registered classes
template <class T, class = void>
struct caster {
  T* p = nullptr;
  bool load(PyObject* o, bool) {
    auto it = types().find(typeid(T));
    if (it == types().end() || !PyObject_TypeCheck(o, it->second)) return false;
    p = static_cast<T*>(reinterpret_cast<Instance*>(o)->ptr);
    return p != nullptr;
  }
  T& get() { return *p; }
  static PyObject* cast(T&& x, return_value_policy, PyObject*) {
    return instance(typeid(T), new T(std::move(x)), destroy<T>, nullptr);
  }
  static PyObject* cast(const T& x, return_value_policy policy, PyObject* parent) {
    if (policy == return_value_policy::reference_internal || policy == return_value_policy::reference) {
      return instance(typeid(T), const_cast<T*>(&x), nullptr, parent);
    }
    if constexpr (std::is_copy_constructible_v<T>) {
      return instance(typeid(T), new T(x), destroy<T>, nullptr);
    } else {
      throw cast_error("return_value_policy = copy, but type is non-copyable!");
    }
  }
};

template <>
struct caster<bool> {
  bool v = false;
  bool load(PyObject* o, bool convert) {
    if (o == Py_True || o == Py_False) {
      v = o == Py_True;
      return true;
    }
    if (!convert) return false;
    if (o == Py_None) return true;
    if (!Py_TYPE(o)->tp_as_number || !Py_TYPE(o)->tp_as_number->nb_bool) return false;
    int r = PyObject_IsTrue(o);
    if (r < 0) PyErr_Clear();
    v = r == 1;
    return r >= 0;
  }
  bool& get() { return v; }
  static PyObject* cast(bool x, return_value_policy, PyObject*) { return PyBool_FromLong(x); }
};

template <class T>
struct caster<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool> && !std::is_same_v<T, char>>> {
  T v = 0;
  bool load(PyObject* o, bool convert) {
    if (PyFloat_Check(o)) return false;
    if (!convert && !PyLong_Check(o) && !PyIndex_Check(o)) return false;
    object i = object::steal(PyNumber_Index(o));
    if (!i.ptr()) {
      PyErr_Clear();
      return false;
    }
    if constexpr (std::is_unsigned_v<T>) {
      unsigned long x = PyLong_AsUnsignedLong(i.ptr());
      if (PyErr_Occurred()) {
        PyErr_Clear();
        return false;
      }
      v = static_cast<T>(x);
      return static_cast<unsigned long>(v) == x;
    } else {
      long x = PyLong_AsLong(i.ptr());
      if (PyErr_Occurred()) {
        PyErr_Clear();
        return false;
      }
      v = static_cast<T>(x);
      return static_cast<long>(v) == x;
    }
  }
  T& get() { return v; }
  static PyObject* cast(T x, return_value_policy, PyObject*) {
    if constexpr (std::is_unsigned_v<T>) return PyLong_FromUnsignedLong(x);
    return PyLong_FromLong(x);
  }
};

template <class T>
struct caster<T, std::enable_if_t<std::is_floating_point_v<T>>> {
  T v = 0;
  bool load(PyObject* o, bool convert) {
    if (!convert && !PyFloat_Check(o)) return false;
    double x = PyFloat_AsDouble(o);
    if (PyErr_Occurred()) {
      PyErr_Clear();
      return false;
    }
    v = static_cast<T>(x);
    return true;
  }
  T& get() { return v; }
  static PyObject* cast(T x, return_value_policy, PyObject*) { return PyFloat_FromDouble(x); }
};

template <>
struct caster<std::string> {
  std::string v;
  bool load(PyObject* o, bool) {
    if (PyUnicode_Check(o)) {
      Py_ssize_t n = 0;
      const char* s = PyUnicode_AsUTF8AndSize(o, &n);
      if (!s) {
        PyErr_Clear();
        return false;
      }
      v.assign(s, n);
      return true;
    }
    if (PyBytes_Check(o)) {
      v.assign(PyBytes_AS_STRING(o), PyBytes_GET_SIZE(o));
      return true;
    }
    return false;
  }
  std::string& get() { return v; }
  static PyObject* cast(const std::string& x, return_value_policy, PyObject*) {
    PyObject* s = PyUnicode_DecodeUTF8(x.data(), x.size(), nullptr);
    if (!s) throw error_already_set();
    return s;
  }
};
template <>
struct caster<const char*> {
  static PyObject* cast(const char* x, return_value_policy p, PyObject* o) {
    return caster<std::string>::cast(x, p, o);
  }
};

template <class T>
PyObject* to_python(T&& x, return_value_policy policy, PyObject* parent) {
  return caster<bare<T>>::cast(std::forward<T>(x), policy, parent);
}

// The members of a container, as lvalues if it is one
template <class Container, class Add>
PyObject* each(Container&& xs, PyObject* out, return_value_policy policy, PyObject* parent, Add&& add) {
  object o = object::steal(out);
  for (auto&& x : xs) {
    using X = decltype(x);
    object item;
    if constexpr (std::is_rvalue_reference_v<Container&&> && !std::is_const_v<std::remove_reference_t<X>>) {
      item = object::steal(to_python(std::move(x), policy, parent));
    } else {
      item = object::steal(to_python(x, policy, parent));
    }
    if (add(o.ptr(), item.ptr()) < 0) throw error_already_set();
  }
  Py_INCREF(o.ptr());
  return o.ptr();
}

template <class X>
struct caster<std::vector<X>> {
  std::vector<X> v;
  bool load(PyObject* o, bool convert) {
    if (!PySequence_Check(o) || PyUnicode_Check(o) || PyBytes_Check(o)) return false;
    Py_ssize_t n = PySequence_Size(o);
    if (n < 0) {
      PyErr_Clear();
      return false;
    }
    v.clear();
    for (Py_ssize_t i = 0; i < n; i++) {
      object item = object::steal(PySequence_GetItem(o, i));
      caster<X> c;
      if (!item.ptr() || !c.load(item.ptr(), convert)) {
        PyErr_Clear();
        return false;
      }
      v.push_back(std::move(c.get()));
    }
    return true;
  }
  std::vector<X>& get() { return v; }
  template <class V>
  static PyObject* cast(V&& x, return_value_policy policy, PyObject* parent) {
    return each(std::forward<V>(x), PyList_New(0), policy, parent, PyList_Append);
  }
};

template <class S, class X>
struct set_caster {
  S v;
  bool load(PyObject* o, bool convert) {
    if (!PyAnySet_Check(o)) return false;
    v.clear();
    object it = object::steal(PyObject_GetIter(o));
    while (PyObject* x = PyIter_Next(it.ptr())) {
      object item = object::steal(x);
      caster<X> c;
      if (!c.load(item.ptr(), convert)) return false;
      v.insert(std::move(c.get()));
    }
    return true;
  }
  S& get() { return v; }
  template <class V>
  static PyObject* cast(V&& x, return_value_policy policy, PyObject* parent) {
    return each(std::forward<V>(x), PySet_New(nullptr), policy, parent, PySet_Add);
  }
};
template <class X, class... R>
struct caster<std::set<X, R...>> : set_caster<std::set<X, R...>, X> {};
template <class X, class... R>
struct caster<std::unordered_set<X, R...>> : set_caster<std::unordered_set<X, R...>, X> {};

template <class M>
struct map_caster {
  template <class V>
  static PyObject* cast(V&& x, return_value_policy policy, PyObject* parent) {
    object o = object::steal(PyDict_New());
    for (auto&& [k, v] : x) {
      object pk = object::steal(to_python(k, policy, parent)), pv = object::steal(to_python(v, policy, parent));
      if (PyDict_SetItem(o.ptr(), pk.ptr(), pv.ptr()) < 0) throw error_already_set();
    }
    Py_INCREF(o.ptr());
    return o.ptr();
  }
};
template <class K, class V, class... R>
struct caster<std::map<K, V, R...>> : map_caster<std::map<K, V, R...>> {};
template <class K, class V, class... R>
struct caster<std::unordered_map<K, V, R...>> : map_caster<std::unordered_map<K, V, R...>> {};

template <class A, class B>
struct caster<std::pair<A, B>> {
  std::pair<A, B> v;
  bool load(PyObject* o, bool convert) {
    if (!PySequence_Check(o) || PySequence_Size(o) != 2) return false;
    object x = object::steal(PySequence_GetItem(o, 0)), y = object::steal(PySequence_GetItem(o, 1));
    caster<A> a;
    caster<B> b;
    if (!a.load(x.ptr(), convert) || !b.load(y.ptr(), convert)) return false;
    v.first = a.get();
    v.second = b.get();
    return true;
  }
  std::pair<A, B>& get() { return v; }
  template <class V>
  static PyObject* cast(V&& x, return_value_policy policy, PyObject* parent) {
    object a, b;
    if constexpr (std::is_lvalue_reference_v<V>) {
      a = object::steal(to_python(x.first, policy, parent));
      b = object::steal(to_python(x.second, policy, parent));
    } else {
      a = object::steal(to_python(std::move(x.first), policy, parent));
      b = object::steal(to_python(std::move(x.second), policy, parent));
    }
    return PyTuple_Pack(2, a.ptr(), b.ptr());
  }
};

template <class X>
struct caster<std::optional<X>> {
  std::optional<X> v;
  bool load(PyObject* o, bool convert) {
    if (o == Py_None) return true;
    caster<X> c;
    if (!c.load(o, convert)) return false;
    v = c.get();
    return true;
  }
  std::optional<X>& get() { return v; }
  template <class V>
  static PyObject* cast(V&& x, return_value_policy policy, PyObject* parent) {
    if (!x) Py_RETURN_NONE;
    return to_python(*std::forward<V>(x), policy, parent);
  }
};

// Shared pointers: the instance shares the ownership if its class is declared with such
// a holder, and takes the object for its own (a unique_ptr holder) otherwise.
inline std::set<std::type_index>& shared_holders() {
  static std::set<std::type_index> s;
  return s;
}
template <class X>
struct caster<std::shared_ptr<X>> {
  static PyObject* cast(const std::shared_ptr<X>& x, return_value_policy, PyObject*) {
    if (!x) Py_RETURN_NONE;
    if (!shared_holders().count(typeid(X))) return instance(typeid(X), x.get(), destroy<X>, nullptr);
    auto* s = new std::shared_ptr<X>(x);
    PyObject* o = instance(typeid(X), s->get(), nullptr, nullptr);
    object cap = object::steal(PyCapsule_New(s, nullptr, [](PyObject* c) {
      delete static_cast<std::shared_ptr<X>*>(PyCapsule_GetPointer(c, nullptr));
    }));
    keep(o, cap.ptr());
    return o;
  }
};

template <class X>
struct caster<X*> {
  caster<X> c;
  bool load(PyObject* o, bool convert) { return c.load(o, convert); }
  static PyObject* cast(X* x, return_value_policy policy, PyObject* parent) {
    if (!x) Py_RETURN_NONE;
    return caster<bare<X>>::cast(*x, policy, parent);
  }
};

template <class O>
struct object_caster {
  O v;
  bool load(PyObject* o, bool) {
    if constexpr (std::is_same_v<O, tuple>) {
      if (!PyTuple_Check(o)) return false;
    } else if constexpr (std::is_same_v<O, list>) {
      if (!PyList_Check(o)) return false;
    } else if constexpr (std::is_same_v<O, str>) {
      if (!PyUnicode_Check(o)) return false;
    }
    static_cast<object&>(v) = object::borrow(o);
    return true;
  }
  O& get() { return v; }
  static PyObject* cast(const O& x, return_value_policy, PyObject*) {
    Py_INCREF(x.ptr());
    return x.ptr();
  }
};
template <>
struct caster<object> : object_caster<object> {};
template <>
struct caster<tuple> : object_caster<tuple> {};
template <>
struct caster<list> : object_caster<list> {};
template <>
struct caster<str> : object_caster<str> {};
template <>
struct caster<iterator> : object_caster<iterator> {};
template <>
struct caster<none> : object_caster<none> {};

template <class T>
T object::cast() const {
  caster<bare<T>> c;
  if (!c.load(ptr(), true)) throw cast_error("Unable to cast Python instance to C++ type");
  return c.get();
}

template <class T>
void list::append(T&& x) {
  object o = steal(to_python(std::forward<T>(x), return_value_policy::copy, nullptr));
  PyList_Append(ptr(), o.ptr());
}
template <class T>
object cast(T&& x, return_value_policy policy = return_value_policy::automatic, object parent = object()) {
  return object::steal(to_python(std::forward<T>(x), policy, parent.ptr()));
}
template <class T, class U = object>
T cast(const object& o) {
  return o.cast<T>();
}

template <class... A>
tuple make_tuple(A&&... a) {
  object xs[] = {object::steal(to_python(std::forward<A>(a), return_value_policy::copy, nullptr))...};
  PyObject* t = PyTuple_New(sizeof...(A));
  for (size_t i = 0; i < sizeof...(A); i++) {
    Py_INCREF(xs[i].ptr());
    PyTuple_SET_ITEM(t, i, xs[i].ptr());
  }
  return tuple(object::steal(t));
}

// ---------------------------------------------------------------- annotations
struct arg_v {
  const char* name;
  object value;
};
struct arg {
  const char* name;
  explicit arg(const char* n) : name(n) {}
  template <class T>
  arg_v operator=(T&& x) const {  // NOLINT
    return arg_v{name, object::steal(to_python(std::forward<T>(x), return_value_policy::copy, nullptr))};
  }
};

template <class... A>
struct overload_cast_impl {
  template <class R>
  constexpr auto operator()(R (*f)(A...)) const { return f; }
  template <class R, class C>
  constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const { return f; }
  template <class R, class C>
  constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const { return f; }
};
template <class... A>
constexpr overload_cast_impl<A...> overload_cast = {};
constexpr auto const_ = std::true_type{};

inline namespace literals {
inline arg operator"" _a(const char* name, size_t) { return arg(name); }
}  // namespace literals
template <size_t Nurse, size_t Patient>
struct keep_alive {};
template <class...>
struct call_guard {};
struct gil_scoped_release {};
struct is_operator {};
struct doc {
  explicit doc(const char*) {}
};
struct dynamic_attr {};
struct module_local {};

// ------------------------------------------------------------------ functions
struct ArgSpec {
  std::string name;
  object value;  // the default, if any
};

constexpr PyObject* kNextOverload = nullptr;

struct Overload {
  size_t nargs = 0;
  bool method = false;
  bool ctor = false;  // the first argument is an instance under construction
  std::vector<ArgSpec> specs;  // of all arguments but the instance
  return_value_policy policy = return_value_policy::automatic;
  std::vector<std::pair<size_t, size_t>> keeps;
  // kNextOverload without a Python error: the arguments don't fit
  std::function<PyObject*(PyObject* const*, bool, return_value_policy, PyObject*)> call;
};

struct Function {
  std::string name;
  std::vector<Overload> overloads;
  PyMethodDef def;
};

inline void annotate(Overload& o, const arg& a) { o.specs.push_back({a.name, object()}); }
inline void annotate(Overload& o, const arg_v& a) { o.specs.push_back({a.name, a.value}); }
inline void annotate(Overload& o, return_value_policy p) { o.policy = p; }
template <size_t N, size_t P>
void annotate(Overload& o, const keep_alive<N, P>&) {
  o.keeps.emplace_back(N, P);
}
template <class X>
void annotate(Overload&, const X&) {}

inline void translate() {
  try {
    throw;
  } catch (const error_already_set&) {
  } catch (const stop_iteration& e) {
    PyErr_SetString(PyExc_StopIteration, e.what());
  } catch (const index_error& e) {
    PyErr_SetString(PyExc_IndexError, e.what());
  } catch (const key_error& e) {
    PyErr_SetString(PyExc_KeyError, e.what());
  } catch (const value_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const type_error& e) {
    PyErr_SetString(PyExc_TypeError, e.what());
  } catch (const std::bad_alloc& e) {
    PyErr_SetString(PyExc_MemoryError, e.what());
  } catch (const std::domain_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::invalid_argument& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::length_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::out_of_range& e) {
    PyErr_SetString(PyExc_IndexError, e.what());
  } catch (const std::range_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::overflow_error& e) {
    PyErr_SetString(PyExc_OverflowError, e.what());
  } catch (const std::exception& e) {
    PyErr_SetString(PyExc_RuntimeError, e.what());
  } catch (...) {
    PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!");
  }
}

inline PyObject* dispatch(PyObject* capsule, PyObject* args, PyObject* kwargs) {
  auto* f = static_cast<Function*>(PyCapsule_GetPointer(capsule, nullptr));
  const size_t given = PyTuple_GET_SIZE(args);
  for (bool convert : {false, true}) {
    if (!convert && f->overloads.size() == 1) continue;
    for (Overload& o : f->overloads) {
      if (given > o.nargs) continue;
      std::vector<PyObject*> xs;
      for (size_t i = 0; i < given; i++) xs.push_back(PyTuple_GET_ITEM(args, i));
      const size_t skip = o.method ? 1 : 0;
      size_t used = 0;
      bool ok = given >= skip;
      for (size_t i = 0; ok && i < given && i >= skip && i - skip < o.specs.size(); i++) {
        // given twice
        if (kwargs && PyDict_GetItemString(kwargs, o.specs[i - skip].name.c_str())) ok = false;
      }
      for (size_t i = given; ok && i < o.nargs; i++) {
        ok = false;
        if (i - skip >= o.specs.size()) break;
        ArgSpec& s = o.specs[i - skip];
        PyObject* x = kwargs ? PyDict_GetItemString(kwargs, s.name.c_str()) : nullptr;
        if (x) used++;
        else x = s.value.ptr();
        if (!x) break;
        xs.push_back(x);
        ok = true;
      }
      if (!ok || used != (kwargs ? static_cast<size_t>(PyDict_Size(kwargs)) : 0)) continue;
      PyObject* parent = o.method && !xs.empty() ? xs[0] : nullptr;
      PyObject* r = nullptr;
      try {
        r = o.call(xs.data(), convert, o.policy, parent);
      } catch (...) {
        translate();
        if (!PyErr_Occurred()) PyErr_SetString(PyExc_SystemError, "no exception set");
        return nullptr;
      }
      if (r == kNextOverload) {
        if (PyErr_Occurred()) return nullptr;
        continue;
      }
      for (auto [n, p] : o.keeps) {
        PyObject* nurse = n == 0 ? r : xs.at(n - 1);
        PyObject* patient = p == 0 ? r : xs.at(p - 1);
        if (nurse != Py_None && patient != Py_None) keep(nurse, patient);
      }
      return r;
    }
  }
  PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments.", f->name.c_str());
  return nullptr;
}

// Pointers to members, as functions of the class T they are defined on
template <class T, class F>
F as_function(F f) {
  return f;
}
#define VERIF_PYBIND_MEMBER(QUAL, SELF)                                     \
  template <class T, class R, class C, class... A>                          \
  auto as_function(R (C::*f)(A...) QUAL) {                                  \
    return [f](SELF self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); }; \
  }
VERIF_PYBIND_MEMBER(, T&)
VERIF_PYBIND_MEMBER(const, const T&)
VERIF_PYBIND_MEMBER(noexcept, T&)
VERIF_PYBIND_MEMBER(const noexcept, const T&)
#undef VERIF_PYBIND_MEMBER

template <class F>
struct signature : signature<decltype(&F::operator())> {};
template <class R, class... A>
struct signature<R (*)(A...)> {
  using type = R(A...);
};
template <class R, class... A>
struct signature<R (*)(A...) noexcept> {
  using type = R(A...);
};
template <class R, class C, class... A>
struct signature<R (C::*)(A...)> {
  using type = R(A...);
};
template <class R, class C, class... A>
struct signature<R (C::*)(A...) const> {
  using type = R(A...);
};

template <class F, class R, class... A, size_t... I>
Overload overload(F f, R (*)(A...), std::index_sequence<I...>) {
  Overload o;
  o.nargs = sizeof...(A);
  o.call = [f = std::move(f)](PyObject* const* xs, bool convert, return_value_policy policy,
                              PyObject* parent) mutable -> PyObject* {
    std::tuple<caster<bare<A>>...> c;
    (void)xs;
    if (!(std::get<I>(c).load(xs[I], convert) && ...)) return kNextOverload;
    if constexpr (std::is_void_v<R>) {
      f(std::forward<A>(std::get<I>(c).get())...);
      Py_RETURN_NONE;
    } else {
      return to_python(f(std::forward<A>(std::get<I>(c).get())...), policy, parent);
    }
  };
  return o;
}

template <class S>
struct arity;
template <class R, class... A>
struct arity<R(A...)> : std::integral_constant<size_t, sizeof...(A)> {};

template <class F>
Overload make_overload(F f) {
  using S = typename signature<F>::type;
  return overload(std::move(f), static_cast<S*>(nullptr), std::make_index_sequence<arity<S>::value>());
}

// The Python callable of that name in scope, with one more overload
inline object add_overload(PyObject* scope, const std::string& name, Overload o, bool is_static) {
  static std::map<std::pair<PyObject*, std::string>, std::pair<Function*, object>> all;
  auto& slot = all[{scope, name}];
  if (!slot.first) {
    auto* f = new Function;
    f->name = name;
    f->def = {f->name.c_str(), reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)()>(dispatch)),
              METH_VARARGS | METH_KEYWORDS, nullptr};
    object cap = object::steal(PyCapsule_New(f, nullptr, nullptr));
    object cf = object::steal(PyCFunction_New(&f->def, cap.ptr()));
    object bound = object::steal(is_static ? PyStaticMethod_New(cf.ptr()) : PyInstanceMethod_New(cf.ptr()));
    slot = {f, cf};
    f->overloads.push_back(std::move(o));
    if (scope && PyObject_SetAttrString(scope, name.c_str(), bound.ptr()) < 0) throw error_already_set();
  } else {
    slot.first->overloads.push_back(std::move(o));
  }
  return slot.second;
}

inline object plain_function(const std::string& name, Overload o) {
  auto* f = new Function;
  f->name = name;
  f->def = {f->name.c_str(), reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)()>(dispatch)),
            METH_VARARGS | METH_KEYWORDS, nullptr};
  f->overloads.push_back(std::move(o));
  object cap = object::steal(PyCapsule_New(f, nullptr, nullptr));
  return object::steal(PyCFunction_New(&f->def, cap.ptr()));
}

// --------------------------------------------------------------------- module
class module_ : public object {
 public:
  explicit module_(object o) : object(std::move(o)) {}
  struct Doc {
    Doc& operator=(const char*) { return *this; }
  };
  Doc doc() const { return {}; }
  template <class F, class... Extra>
  module_& def(const char* name, F f, const Extra&... extra) {
    Overload o = make_overload(as_function<void>(std::move(f)));
    (annotate(o, extra), ...);
    object fn = plain_function(name, std::move(o));
    PyObject_SetAttrString(ptr(), name, fn.ptr());
    return *this;
  }
  void add(const char* name, PyObject* x) { PyObject_SetAttrString(ptr(), name, x); }
};
using module = module_;

// --------------------------------------------------------------------- classes
template <class... A>
struct init_ctor {};
template <class F>
struct init_factory {
  F f;
};
template <class... A>
init_ctor<A...> init() {
  return {};
}
template <class F>
init_factory<F> init(F f) {
  return {std::move(f)};
}
template <class G, class S>
struct pickle_factory {
  G get;
  S set;
};
template <class G, class S>
pickle_factory<G, S> pickle(G get, S set) {
  return {std::move(get), std::move(set)};
}

// An instance still to be constructed
struct Fresh {
  Instance* self = nullptr;
};
template <>
struct caster<Fresh> {
  Fresh v;
  bool load(PyObject* o, bool) {
    v.self = reinterpret_cast<Instance*>(o);
    return true;
  }
  Fresh& get() { return v; }
};
template <class T>
void construct(Fresh f, T* p) {
  if (f.self->ptr && f.self->del) f.self->del(f.self->ptr);
  f.self->ptr = p;
  f.self->del = destroy<T>;
}

template <class T>
struct is_shared : std::false_type {};
template <class T>
struct is_shared<std::shared_ptr<T>> : std::true_type {};
template <class T>
struct is_unique : std::false_type {};
template <class T>
struct is_unique<std::unique_ptr<T>> : std::true_type {};

template <class T, class... Options>
class class_ : public object {
 public:
  template <class... Extra>
  class_(const object& scope, const char* name, const Extra&...) {
    object in = object::steal(PyObject_GetAttrString(scope.ptr(), "__name__"));
    full_ = std::string(PyUnicode_AsUTF8(in.ptr())) + "." + name;
    PyType_Slot slots[] = {{Py_tp_dealloc, reinterpret_cast<void*>(dealloc)},
                           {Py_tp_new, reinterpret_cast<void*>(PyType_GenericNew)},
                           {Py_tp_init, reinterpret_cast<void*>(+[](PyObject* self, PyObject*, PyObject*) {
                              PyErr_Format(PyExc_TypeError, "%s: No constructor defined!", Py_TYPE(self)->tp_name);
                              return -1;
                            })},
                           {0, nullptr}};
    PyType_Spec spec = {strdup(full_.c_str()), sizeof(Instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
    object t = object::steal(PyType_FromSpec(&spec));
    static_cast<object&>(*this) = t;
    types()[typeid(T)] = reinterpret_cast<PyTypeObject*>(t.ptr());
    if ((is_shared<Options>::value || ...)) shared_holders().insert(typeid(T));
    Py_INCREF(t.ptr());
    PyObject_SetAttrString(scope.ptr(), name, t.ptr());
  }

  template <class F, class... Extra>
  class_& def(const char* name, F f, const Extra&... extra) {
    return add(name, make_overload(as_function<T>(std::move(f))), extra...);
  }
  template <class F, class... Extra>
  class_& def_static(const char* name, F f, const Extra&... extra) {
    Overload o = make_overload(as_function<T>(std::move(f)));
    (annotate(o, extra), ...);
    add_overload(ptr(), name, std::move(o), true);
    return *this;
  }
  template <class... A, class... Extra>
  class_& def(init_ctor<A...>, const Extra&... extra) {
    return add("__init__", make_overload([](Fresh f, A... a) { construct(f, new T(std::forward<A>(a)...)); }), extra...);
  }
  template <class F, class... Extra>
  class_& def(init_factory<F> i, const Extra&... extra) {
    using S = typename signature<F>::type;
    return add("__init__", factory(std::move(i.f), static_cast<S*>(nullptr)), extra...);
  }
  template <class G, class S, class... Extra>
  class_& def(pickle_factory<G, S> p, const Extra&... extra) {
    def("__getstate__", std::move(p.get));
    using Sig = typename signature<S>::type;
    return add("__setstate__", factory(std::move(p.set), static_cast<Sig*>(nullptr)), extra...);
  }

  template <class G, class... Extra>
  class_& def_property_readonly(const char* name, G g, const Extra&... extra) {
    return property(name, getter(std::move(g), extra...), object());
  }
  template <class G, class S, class... Extra>
  class_& def_property(const char* name, G g, S s, const Extra&... extra) {
    Overload o = make_overload(as_function<T>(std::move(s)));
    o.method = true;
    return property(name, getter(std::move(g), extra...), plain_function(name, std::move(o)));
  }
  template <class C, class D, class... Extra>
  class_& def_readonly(const char* name, D C::*m, const Extra&... extra) {
    return def_property_readonly(name, [m](const T& x) -> const D& { return x.*m; }, extra...);
  }
  template <class C, class D, class... Extra>
  class_& def_readwrite(const char* name, D C::*m, const Extra&... extra) {
    return def_property(name, [m](const T& x) -> const D& { return x.*m; },
                        [m](T& x, const D& v) { x.*m = v; }, extra...);
  }

 private:
  template <class F, class R, class... A>
  static Overload factory(F f, R (*)(A...)) {
    return make_overload([f = std::move(f)](Fresh x, A... a) {
      // A result by value is moved into place.
      if constexpr (std::is_pointer_v<R>) {
        construct(x, f(std::forward<A>(a)...));
      } else if constexpr (is_unique<R>::value) {
        construct(x, f(std::forward<A>(a)...).release());
      } else {
        T made = f(std::forward<A>(a)...);
        construct(x, new T(std::move(made)));
      }
    });
  }
  template <class... Extra>
  class_& add(const char* name, Overload o, const Extra&... extra) {
    o.method = true;
    (annotate(o, extra), ...);
    add_overload(ptr(), name, std::move(o), false);
    return *this;
  }
  template <class G, class... Extra>
  object getter(G g, const Extra&... extra) {
    Overload o = make_overload(as_function<T>(std::move(g)));
    o.method = true;
    o.policy = return_value_policy::reference_internal;
    (annotate(o, extra), ...);
    return plain_function("property", std::move(o));
  }
  class_& property(const char* name, const object& get, const object& set) {
    object p = object::steal(PyObject_CallFunctionObjArgs(reinterpret_cast<PyObject*>(&PyProperty_Type), get.ptr(),
                                                          set.ptr() ? set.ptr() : Py_None, nullptr));
    PyObject_SetAttrString(ptr(), name, p.ptr());
    return *this;
  }

  std::string full_;
};

// ------------------------------------------------------------------- iterators
struct IteratorState {
  std::function<PyObject*(PyObject*)> next;
};

template <return_value_policy Policy = return_value_policy::reference_internal, class It, class End, class... Extra>
iterator make_iterator(It first, End last, const Extra&...) {
  if (!types().count(typeid(IteratorState))) {
    object scope = object::steal(PyModule_New("pysymbolic"));
    class_<IteratorState> c(scope, "iterator");
    Overload it = make_overload([](const object& self) -> object { return self; });
    it.method = true;
    add_overload(c.ptr(), "__iter__", std::move(it), false);
    Overload nx = make_overload([](const object& self) -> object {
      auto* s = static_cast<IteratorState*>(reinterpret_cast<Instance*>(self.ptr())->ptr);
      return object::steal(s->next(self.ptr()));
    });
    nx.method = true;
    add_overload(c.ptr(), "__next__", std::move(nx), false);
  }
  struct State {
    It it;
    End end;
    bool first;
  };
  auto s = std::make_shared<State>(State{std::move(first), std::move(last), true});
  auto* state = new IteratorState{[s](PyObject* self) -> PyObject* {
    if (!s->first) ++s->it;
    else s->first = false;
    if (s->it == s->end) {
      s->first = true;
      throw stop_iteration();
    }
    return to_python(*s->it, Policy, self);
  }};
  return iterator(object::steal(instance(typeid(IteratorState), state, destroy<IteratorState>, nullptr)));
}

inline void add_ostream_redirect(module_, const char* = "ostream_redirect") {}

}  // namespace pybind11

#define PYBIND11_MODULE(name, variable)                                             \
  static void pybind11_init_##name(::pybind11::module_&);                           \
  extern "C" __attribute__((visibility("default"))) PyObject* PyInit_##name() {     \
    static PyModuleDef def = {PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr};  \
    auto m = ::pybind11::module_(::pybind11::object::steal(PyModule_Create(&def))); \
    try {                                                                           \
      pybind11_init_##name(m);                                                      \
    } catch (...) {                                                                 \
      ::pybind11::translate();                                                      \
      return nullptr;                                                               \
    }                                                                               \
    Py_INCREF(m.ptr());                                                             \
    return m.ptr();                                                                 \
  }                                                                                 \
  void pybind11_init_##name(::pybind11::module_& variable)

#endif  // VERIF_PYBIND11_H_
