// Arrays are lists in the stand-in.
#ifndef VERIF_PYBIND11_EIGEN_H_
#define VERIF_PYBIND11_EIGEN_H_
#include <Eigen/Dense>

#include "pybind11.h"
namespace pybind11 {
template <class X, int R, int C, int O, int MR, int MC>
struct caster<Eigen::Array<X, R, C, O, MR, MC>> {
  using T = Eigen::Array<X, R, C, O, MR, MC>;
  T v;
  bool load(PyObject* o, bool convert) {
    caster<std::vector<X>> c;
    if (!c.load(o, convert)) return false;
    v.resize(c.v.size());
    for (size_t i = 0; i < c.v.size(); i++) v[i] = c.v[i];
    return true;
  }
  T& get() { return v; }
  static PyObject* cast(const T& x, return_value_policy p, PyObject* parent) {
    std::vector<X> xs(x.data(), x.data() + x.size());
    PyObject* out = PyList_New(0);
    for (X y : xs) {
      object item = object::steal(caster<X>::cast(y, p, parent));
      PyList_Append(out, item.ptr());
    }
    return out;
  }
};
template <class T>
struct caster<Eigen::Ref<const T>> {
  caster<T> c;
  std::optional<Eigen::Ref<const T>> r;
  bool load(PyObject* o, bool convert) {
    if (!c.load(o, convert)) return false;
    r.emplace(c.v);
    return true;
  }
  Eigen::Ref<const T>& get() { return *r; }
};
}  // namespace pybind11
#endif  // VERIF_PYBIND11_EIGEN_H_
