#pragma once
#include <variant>
namespace absl { using std::variant; using std::visit; using std::get_if; using std::holds_alternative; using std::monostate; }
