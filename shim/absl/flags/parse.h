#pragma once
#include <vector>
namespace absl { inline std::vector<char*> ParseCommandLine(int c, char** v) { return std::vector<char*>(v, v + c); } }
