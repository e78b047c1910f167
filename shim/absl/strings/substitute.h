#pragma once
#include "absl/strings/str_cat.h"
#include "absl/strings/match.h"
