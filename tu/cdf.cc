// Witness functions, analysed (never executed) by checks/Q07.py: the domain of
// the inverse distribution functions.
#include <cmath>
#include "arolla/qexpr/operators/math_extra/cdf.h"

namespace witness {
using Policy = arolla::BoostMathIgnoreAllErrorsPolicy;
template <class T>
bool InUnit(T x) { return x >= 0 && x <= 1; }
template <class T>
bool PositiveFinite(T x) { return x > 0 && !std::isinf(x); }

absl::StatusOr<float> impl_cdf_t_float(float x, float dof) { return arolla::TDistributionInverseCdfOp()(x, dof); }
absl::StatusOr<float> ref_cdf_t_float(float x, float dof) {
  if (!InUnit(x)) return absl::InvalidArgumentError("");
  if (!PositiveFinite(dof)) return absl::InvalidArgumentError("");
  return boost::math::quantile(boost::math::students_t_distribution<float, Policy>(dof), x);
}
absl::StatusOr<float> impl_cdf_beta_float(float x, float a, float b) { return arolla::BetaDistributionInverseCdfOp()(x, a, b); }
absl::StatusOr<float> ref_cdf_beta_float(float x, float a, float b) {
  if (!InUnit(x)) return absl::InvalidArgumentError("");
  if (!PositiveFinite(a)) return absl::InvalidArgumentError("");
  if (!PositiveFinite(b)) return absl::InvalidArgumentError("");
  return boost::math::quantile(boost::math::beta_distribution<float, Policy>(a, b), x);
}
absl::StatusOr<float> impl_cdf_normal_float(float x) { return arolla::NormalDistributionInverseCdfOp()(x); }
absl::StatusOr<float> ref_cdf_normal_float(float x) {
  if (!InUnit(x)) return absl::InvalidArgumentError("");
  return boost::math::quantile(boost::math::normal_distribution<float, Policy>(), x);
}

absl::StatusOr<double> impl_cdf_t_double(double x, double dof) { return arolla::TDistributionInverseCdfOp()(x, dof); }
absl::StatusOr<double> ref_cdf_t_double(double x, double dof) {
  if (!InUnit(x)) return absl::InvalidArgumentError("");
  if (!PositiveFinite(dof)) return absl::InvalidArgumentError("");
  return boost::math::quantile(boost::math::students_t_distribution<double, Policy>(dof), x);
}
absl::StatusOr<double> impl_cdf_beta_double(double x, double a, double b) { return arolla::BetaDistributionInverseCdfOp()(x, a, b); }
absl::StatusOr<double> ref_cdf_beta_double(double x, double a, double b) {
  if (!InUnit(x)) return absl::InvalidArgumentError("");
  if (!PositiveFinite(a)) return absl::InvalidArgumentError("");
  if (!PositiveFinite(b)) return absl::InvalidArgumentError("");
  return boost::math::quantile(boost::math::beta_distribution<double, Policy>(a, b), x);
}
absl::StatusOr<double> impl_cdf_normal_double(double x) { return arolla::NormalDistributionInverseCdfOp()(x); }
absl::StatusOr<double> ref_cdf_normal_double(double x) {
  if (!InUnit(x)) return absl::InvalidArgumentError("");
  return boost::math::quantile(boost::math::normal_distribution<double, Policy>(), x);
}

}  // namespace witness
