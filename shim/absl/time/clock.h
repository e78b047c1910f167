#pragma once
#include "absl/time/time.h"
