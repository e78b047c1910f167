#pragma once
#include "absl/log/log_shim.h"
