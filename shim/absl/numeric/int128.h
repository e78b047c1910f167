#pragma once
namespace absl { using int128 = __int128; using uint128 = unsigned __int128; }
