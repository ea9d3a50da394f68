#ifndef SIM_PYSTUB_EIGEN_H_
#define SIM_PYSTUB_EIGEN_H_
#include <Eigen/Eigen>

#include "pybind11/pybind11.h"

namespace pybind11 {
namespace detail {

// One-dimensional arrays of truth values.
template <typename D>
struct dense_caster : value_caster<D> {
  bool load(const simpy::Ref& r, bool convert) {
    std::vector<bool> v;
    if (r->kind == simpy::kArray) {
      v = r->array;
    } else if (convert && (r->kind == simpy::kList || r->kind == simpy::kTuple)) {
      for (const simpy::Ref& i : r->items) {
        caster<bool> c;
        if (!c.load(i, true)) return false;
        v.push_back(c.ref());
      }
    } else {
      return false;
    }
    this->value.resize(v.size());
    for (size_t i = 0; i < v.size(); i++) this->value(i) = v[i];
    return true;
  }
  static simpy::Ref cast(const D& d, return_value_policy, const simpy::Ref&) {
    simpy::Ref r = simpy::New(simpy::kArray);
    for (Eigen::Index i = 0; i < d.size(); i++) r->array.push_back(d(i));
    return r;
  }
};
template <typename S, int R, int C, int O, int MR, int MC>
struct caster<Eigen::Array<S, R, C, O, MR, MC>> : dense_caster<Eigen::Array<S, R, C, O, MR, MC>> {};
template <typename S, int R, int C, int O, int MR, int MC>
struct caster<Eigen::Matrix<S, R, C, O, MR, MC>> : dense_caster<Eigen::Matrix<S, R, C, O, MR, MC>> {};
template <typename D, int O, typename St>
struct caster<Eigen::Ref<D, O, St>> {
  static constexpr bool generic = false;
  using Plain = std::remove_const_t<D>;
  dense_caster<Plain> plain;
  std::optional<Eigen::Ref<D, O, St>> value;
  bool load(const simpy::Ref& r, bool convert) {
    if (!plain.load(r, convert)) return false;
    value.emplace(plain.value);
    return true;
  }
  Eigen::Ref<D, O, St>& ref() { return *value; }
};

}  // namespace detail
}  // namespace pybind11
#endif
