// The part of pybind11's interface bindings/python/src/bindings.cpp needs (pybind11 itself is not installed here).
#pragma once
#include <Python.h>
#include <cstdint>
#include <cstring>
#include <functional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
namespace pybind11 {
struct error_already_set : std::runtime_error {
  error_already_set() : std::runtime_error("python error") { PyErr_Clear(); }
};
struct cast_error : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct gil_scoped_acquire {};
struct gil_scoped_release {};
class object {
 protected:
  PyObject* p = nullptr;
 public:
  object() {}
  explicit object(PyObject* o) : p(o) {}
  object(const object& o) : p(o.p) { Py_XINCREF(p); }
  object(object&& o) : p(o.p) { o.p = nullptr; }
  object& operator=(object o) { std::swap(p, o.p); return *this; }
  ~object() { Py_XDECREF(p); }
  PyObject* ptr() const { return p; }
  PyObject* release() { PyObject* r = p; p = nullptr; return r; }
  bool is_none() const { return p == Py_None; }
  explicit operator bool() const { return p != nullptr; }
};
struct none : object { none() : object((Py_INCREF(Py_None), Py_None)) {} };
class bytes : public object {
 public:
  bytes() : object(PyBytes_FromStringAndSize("", 0)) {}
  bytes(const char* d, size_t n) : object(PyBytes_FromStringAndSize(d, (Py_ssize_t) n)) {}
  bytes(const std::string& s) : bytes(s.data(), s.size()) {}
  bytes(const char* s) : bytes(s, strlen(s)) {}
  explicit bytes(PyObject* o, int) : object(o) {}
  operator std::string() const { return std::string(PyBytes_AsString(p), PyBytes_Size(p)); }
};
enum class return_value_policy { automatic, take_ownership, copy, reference };
struct arg { const char* name; explicit arg(const char* n) : name(n) {} };
// ---- conversions ----
template <class T, class = void> struct conv;
template <> struct conv<std::string> {
  static std::string from(PyObject* o) {
    Py_ssize_t n;
    if (PyBytes_Check(o)) return std::string(PyBytes_AsString(o), PyBytes_Size(o));
    const char* s = PyUnicode_Check(o) ? PyUnicode_AsUTF8AndSize(o, &n) : nullptr;
    if (!s) { PyErr_Clear(); throw cast_error("str expected"); }
    return std::string(s, n);
  }
  static PyObject* to(const std::string& s) { return PyUnicode_DecodeUTF8(s.data(), s.size(), nullptr); }
};
template <> struct conv<bytes> {
  static bytes from(PyObject* o) {
    if (!PyBytes_Check(o)) throw cast_error("bytes expected");
    Py_INCREF(o);
    return bytes(o, 0);
  }
  static PyObject* to(bytes b) { return b.release(); }
};
template <> struct conv<object> {
  static object from(PyObject* o) { Py_INCREF(o); return object(o); }
  static PyObject* to(object b) { return b.release(); }
};
template <> struct conv<bool> {
  static bool from(PyObject* o) { if (o != Py_True && o != Py_False) throw cast_error("bool expected"); return o == Py_True; }
  static PyObject* to(bool b) { return PyBool_FromLong(b); }
};
template <class T> struct conv<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>> {
  static T from(PyObject* o) {
    if (!PyLong_Check(o)) throw cast_error("int expected");
    if (std::is_signed<T>::value) {
      long long v = PyLong_AsLongLong(o);
      if (PyErr_Occurred() || (long long) (T) v != v) { PyErr_Clear(); throw cast_error("int out of range"); }
      return (T) v;
    }
    unsigned long long v = PyLong_AsUnsignedLongLong(o);
    if (PyErr_Occurred() || (unsigned long long) (T) v != v) { PyErr_Clear(); throw cast_error("int out of range"); }
    return (T) v;
  }
  static PyObject* to(T v) { return std::is_signed<T>::value ? PyLong_FromLongLong((long long) v) : PyLong_FromUnsignedLongLong((unsigned long long) v); }
};
template <> struct conv<void*> {
  static void* from(PyObject* o) {
    if (o == Py_None) return nullptr;
    if (!PyCapsule_CheckExact(o)) throw cast_error("capsule expected");
    return PyCapsule_GetPointer(o, PyCapsule_GetName(o));
  }
  static PyObject* to(void* p) { if (!p) Py_RETURN_NONE; return PyCapsule_New(p, nullptr, nullptr); }
};
template <class T> using bare = std::remove_cv_t<std::remove_reference_t<T>>;
template <class R, class... A> struct conv<std::function<R(A...)>> {
  static std::function<R(A...)> from(PyObject* o) {
    if (o == Py_None) return nullptr;
    if (!PyCallable_Check(o)) throw cast_error("callable expected");
    Py_INCREF(o);
    object f(o);
    return [f](A... a) -> R {
      object args(PyTuple_New(sizeof...(A)));
      Py_ssize_t i = 0;
      (void) i;
      ((void) PyTuple_SetItem(args.ptr(), i++, conv<bare<A>>::to(a)), ...);
      object r(PyObject_CallObject(f.ptr(), args.ptr()));
      if (!r) throw error_already_set();
      if constexpr (!std::is_void<R>::value) return conv<bare<R>>::from(r.ptr());
    };
  }
};
// ---- functions of the module ----
struct fn_base {
  virtual PyObject* call(PyObject* args) = 0;
  virtual ~fn_base() {}
};
inline PyObject* trampoline(PyObject* self, PyObject* args, PyObject* kw) {
  fn_base* f = (fn_base*) PyCapsule_GetPointer(self, nullptr);
  try {
    return f->call(args);
  } catch (cast_error& e) {
    PyErr_SetString(PyExc_TypeError, e.what());
  } catch (std::exception& e) {
    PyErr_SetString(PyExc_RuntimeError, e.what());
  }
  return nullptr;
}
template <class R, class... A> struct fn : fn_base {
  R (*f)(A...);
  fn(R (*f)(A...)) : f(f) {}
  template <size_t... I> PyObject* go(PyObject* args, std::index_sequence<I...>) {
    if (PyTuple_Size(args) != (Py_ssize_t) sizeof...(A)) throw cast_error("wrong number of arguments");
    std::tuple<bare<A>...> t{conv<bare<A>>::from(PyTuple_GetItem(args, I))...};
    if constexpr (std::is_void<R>::value) {
      f(std::get<I>(t)...);
      Py_RETURN_NONE;
    }
    else
      return conv<bare<R>>::to(f(std::get<I>(t)...));
  }
  PyObject* call(PyObject* args) override { return go(args, std::index_sequence_for<A...>{}); }
};
class str_setter {
 public:
  template <class T> void operator=(T&&) {}
};
class module_ {
  PyObject* m;
 public:
  module_(PyObject* m) : m(m) {}
  str_setter doc() { return str_setter(); }
  str_setter attr(const char*) { return str_setter(); }
  template <class R, class... A, class... X> module_& def(const char* name, R (*f)(A...), const X&...) {
    PyMethodDef* d = new PyMethodDef{name, (PyCFunction) (void*) &trampoline, METH_VARARGS | METH_KEYWORDS, nullptr};
    PyObject*    c = PyCapsule_New(new fn<R, A...>(f), nullptr, nullptr);
    PyModule_AddObject(m, name, PyCFunction_New(d, c));
    return *this;
  }
  template <class F, class... X, class = decltype(+std::declval<F>())> module_& def(const char* name, F f, const X&... x) { return def(name, +f, x...); }
};
using module = module_;
} // namespace pybind11
#define PYBIND11_MODULE(name, var)                                                          \
  static void sim_init_##name(pybind11::module_& var);                                      \
  extern "C" PyObject* PyInit_##name() {                                                    \
    static PyModuleDef def = {PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr};          \
    PyObject*          m   = PyModule_Create(&def);                                         \
    pybind11::module_  mod(m);                                                              \
    sim_init_##name(mod);                                                                   \
    return m;                                                                               \
  }                                                                                         \
  static void sim_init_##name(pybind11::module_& var)
