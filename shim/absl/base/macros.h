#pragma once
#include "absl/base/macros_shim.h"
