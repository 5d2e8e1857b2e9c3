#pragma once
#include "absl/base/attributes.h"
#define absl_nonnull
#define absl_nullable
#define absl_nullability_unknown
#ifndef ABSL_NULLABILITY_COMPATIBLE
#define ABSL_NULLABILITY_COMPATIBLE
#endif
#define ABSL_POINTERS_DEFAULT_NONNULL
namespace absl {
template <typename T> using Nonnull = T;
template <typename T> using Nullable = T;
}
