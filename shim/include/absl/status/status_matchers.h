#pragma once
#include "absl/status/status.h"
#include "absl/status/statusor.h"
