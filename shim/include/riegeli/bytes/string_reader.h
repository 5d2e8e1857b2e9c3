#pragma once
#include "riegeli/riegeli_shim.h"
