#pragma once
#include <stddef.h>
#include <cstddef>
using std::nullptr_t;
#include_next "absl/base/attributes.h"
#ifndef ABSL_ATTRIBUTE_TRIVIAL_ABI
#if defined(__clang__)
#define ABSL_ATTRIBUTE_TRIVIAL_ABI [[clang::trivial_abi]]
#else
#define ABSL_ATTRIBUTE_TRIVIAL_ABI
#endif
#endif
#ifndef ABSL_ATTRIBUTE_VIEW
#define ABSL_ATTRIBUTE_VIEW
#endif
#ifndef ABSL_ATTRIBUTE_OWNER
#define ABSL_ATTRIBUTE_OWNER
#endif
#ifndef ABSL_NULLABILITY_COMPATIBLE
#define ABSL_NULLABILITY_COMPATIBLE
#endif
