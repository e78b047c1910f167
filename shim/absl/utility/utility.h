#pragma once
#include <utility>
namespace absl { using std::exchange; using std::in_place; }
